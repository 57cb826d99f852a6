"""Runs the compiler driver over /repo's current tree and loads the dumped MIR."""
import json, os, subprocess, sys, shutil, hashlib, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))

# name -> (cargo arguments, crates to dump)
CONFIGS = {
    'default': (['-p', 'dynamixel2', '--lib']),
    'nodefault': (['-p', 'dynamixel2', '--lib', '--no-default-features']),
    'alloc': (['-p', 'dynamixel2', '--lib', '--no-default-features', '--features', 'alloc']),
    'std': (['-p', 'dynamixel2', '--lib', '--no-default-features', '--features', 'std']),
    'log': (['-p', 'dynamixel2', '--lib', '--features', 'log']),
    'nodefault-log': (['-p', 'dynamixel2', '--lib', '--no-default-features', '--features', 'log']),
    'release': (['-p', 'dynamixel2', '--lib']),     # without debug assertions
    'rs4xx': (['-p', 'dynamixel2', '--lib', '--features', 'rs4xx']),
    'cli': (['-p', 'dynamixel2-cli', '--bins']),
}

# Overflow checks stay on: the analysis shows that they never fail, so the profiles compute the same otherwise.
ENV = {'release': {'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false', 'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true'}}

class ExtractError(Exception):
    config = None

def builds(config):
    """Whether a plain compiler accepts the configuration."""
    r = run(['cargo', 'check', '--offline', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', os.path.join(WORK, 'target-plain')] + CONFIGS[config], cwd=REPO)
    return r.returncode == 0

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_driver():
    os.makedirs(os.path.join(WORK, 'bin'), exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(['bash', os.path.join(VERIF, 'driver', 'build.sh'), os.path.join(WORK, 'bin')])
        if r.returncode != 0:
            raise ExtractError('building the driver failed:\n' + r.stdout)
    return os.path.join(WORK, 'bin', 'mirdump')

_lp_path = None
def build_lp():
    """Compiles the LP routine of the polyhedral domain."""
    global _lp_path
    if _lp_path is None:
        src = os.path.join(VERIF, 'lp', 'lp.rs')
        out = os.path.join(WORK, 'bin', 'liblp.so')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(os.path.join(WORK, 'lock-lp'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
                r = run(['rustc', '-O', '--crate-type', 'cdylib', '-o', out + '.tmp', src])
                if r.returncode != 0: raise ExtractError('building the LP routine failed:\n' + r.stdout)
                os.rename(out + '.tmp', out)
        _lp_path = out
    return _lp_path

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    return _sysroot

def source_hash():
    h = hashlib.sha256()
    files = []
    for base in ('src', 'dynamixel2-cli'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            if '/target' in d: continue
            for f in fs:
                files.append(os.path.join(d, f))
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock')]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(open(os.path.join(VERIF, 'driver', 'src', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24]

def extract(config):
    """Returns (path of JSON file, log). The dump is keyed by a hash of all sources, so it always reflects the current tree."""
    driver = build_driver()
    key = source_hash()
    out = os.path.join(WORK, 'mir', key, config)
    ctype = 'bin' if config == 'cli' else 'lib'
    krate = 'dynamixel2'
    path = os.path.join(out, f'{krate}-{ctype}.json')
    lockf = os.path.join(WORK, f'lock-{config}')
    with open(lockf, 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(path):
            return path
        os.makedirs(out, exist_ok=True)
        target = os.path.join(WORK, 'target-' + config)
        if os.path.isdir(target):
            # Never reuse the compiler output of the analysed crates (cargo decides by time stamps).
            for d, subs, files in os.walk(target):
                for x in list(subs):
                    if x.startswith(('dynamixel2-', 'dynamixel2_', 'libdynamixel2')) or x == 'dynamixel2':
                        shutil.rmtree(os.path.join(d, x)); subs.remove(x)
        env = dict(os.environ)
        env['RUSTC_WORKSPACE_WRAPPER'] = driver
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
        env['MIRDUMP_OUT'] = out
        env['MIRDUMP_CRATES'] = krate
        env['CARGO_TERM_COLOR'] = 'never'
        env.pop('RUSTFLAGS', None)
        env.update(ENV.get(config, {}))
        cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
               '--target-dir', target] + CONFIGS[config]
        r = run(cmd, env=env, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(path):
            e = ExtractError(f'extraction of configuration {config} failed (exit {r.returncode}):\n{r.stdout[-4000:]}')
            e.config = config
            raise e
        # Keep only the newest few dumps.
        base = os.path.join(WORK, 'mir')
        ents = sorted((os.path.getmtime(os.path.join(base, e)), e) for e in os.listdir(base))
        for _, e in ents[:-6]:
            if e != key:
                shutil.rmtree(os.path.join(base, e), ignore_errors=True)
    return path

def witness_dir(name, source, features=()):
    """A crate that uses the crate under analysis like a dependent program does."""
    d = os.path.join(WORK, 'witness-' + name)
    shutil.rmtree(os.path.join(d, 'src'), ignore_errors=True)
    os.makedirs(os.path.join(d, 'src'))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                f'dynamixel2 = {{ path = "{REPO}", default-features = false, features = [{", ".join(chr(34) + x + chr(34) for x in features)}] }}\n[workspace]\n')
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f: f.write(source)
    if os.path.exists(os.path.join(REPO, 'Cargo.lock')): shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    return d

def load_witness(name, source, features=(), profile='dev'):
    """The dumped MIR of a witness crate."""
    driver = build_driver()
    with open(os.path.join(WORK, 'lock-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = witness_dir(name, source, features)
        out = os.path.join(d, 'out')
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
        env = dict(os.environ)
        env['RUSTC_WORKSPACE_WRAPPER'] = driver
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
        env['MIRDUMP_OUT'] = out
        env['MIRDUMP_CRATES'] = name
        env['CARGO_TERM_COLOR'] = 'never'
        env['RUSTFLAGS'] = '-Zalways-encode-mir'
        r = run(['cargo', '+nightly', 'check', '--offline', '--manifest-path', os.path.join(d, 'Cargo.toml'), '--target-dir', os.path.join(d, 'target'), '--profile', profile], env=env, cwd=d)
        path = os.path.join(out, f'{name}-lib.json')
        if r.returncode != 0 or not os.path.exists(path):
            raise ExtractError(f'the witness crate {name} does not build (exit {r.returncode}):\n{r.stdout[-4000:]}')
        with open(path) as f: j = json.load(f)
        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
        return j

def load(config):
    with open(extract(config)) as f:
        return json.load(f)

if __name__ == '__main__':
    for c in sys.argv[1:] or ['default']:
        p = extract(c)
        print(c, p, os.path.getsize(p))
