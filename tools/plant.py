#!/usr/bin/env python3
"""Development tool: confirms planted bugs in a scratch copy of /repo and writes /verif/seeded/<id>/.

plant.py ID...   (definitions in tools/bugs/defs/ID.py: PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
plant.py --checks ID [P..]  runs the checks (all, or the listed ones) against the planted bug in the scratch copy."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
W = '/tmp/plant'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh(w=W):
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(w): sh(f'cp -a /repo {w}')
    sh(f'git -C {w} fetch -q /repo HEAD; git -C {w} checkout -q -f {head}; git -C {w} checkout -- .; git -C {w} clean -fdq')
def defn(i):
    g = {}
    exec(open(os.path.join(HERE, 'bugs', 'defs', i + '.py')).read(), g)
    return g
def apply(i, w=W):
    g = defn(i)
    for f, old, new in g['EDITS']:
        p = os.path.join(w, f); s = open(p).read()
        n = g.get('NTH', {}).get(f)
        assert old in s, f'{i}: text not found in {f}'
        if s.count(old) != 1 and n is None: raise SystemExit(f'{i}: text occurs {s.count(old)} times in {f}')
        if n is None: s = s.replace(old, new)
        else:
            parts = s.split(old); s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)
    return g
def tests(w):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for _ in range(3):
        r = sh(f'cd {w} && cargo test --workspace --offline -- --test-threads=1 2>&1')
        if r.returncode == 0: return True, r.stdout
    return False, r.stdout
def plant(i):
    fresh(); 
    d = os.path.join(VERIF, 'seeded', i); os.makedirs(d, exist_ok=True)
    g = defn(i)
    open(os.path.join(d, 'main.rs'), 'w').write('mod support;\n' + g['DEMO'].lstrip('\n'))
    shutil.copy(os.path.join(HERE, 'bugs', 'support.rs'), d); shutil.copy(os.path.join(HERE, 'bugs', 'demo.sh'), d)
    if 'SH' in g: open(os.path.join(d, 'demo.sh'), 'w').write(g['SH'].lstrip('\n'))
    r0 = sh(f'bash {d}/demo.sh', cwd=W)
    apply(i)
    diff = sh(f'git -C {W} diff').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t, out = tests(W)
    r1 = sh(f'bash {d}/demo.sh', cwd=W)
    good = r0.returncode == 0 and t and r1.returncode != 0 and 'could not compile' not in r1.stdout
    print(f'{i}: demo unpatched {r0.returncode}, tests {"pass" if t else "FAIL"}, demo patched {r1.returncode} -> {"ok" if good else "NOT USABLE"}')
    if r0.returncode: print(r0.stdout[-1500:])
    if not t: print(out[-1500:])
    print('   ', r1.stdout.strip().splitlines()[-1:])
    if not good: shutil.rmtree(d)
    return good
def checks(i, props):
    fresh(); apply(i)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    allp = [c['property'] for c in man['checks']]
    hit = []
    for p in props or allp:
        r = sh(f'VERIF_REPO={W} python3 {VERIF}/sa/check.py --property {p}')
        if r.returncode not in (0, 1): print(p, 'CRASH', r.stdout[-500:])
        if f'VIOLATION property={p}' in r.stdout:
            hit.append(p)
            print(p, [l.strip()[:200] for l in r.stdout.splitlines() if 'violated' in l][:2])
    print(f'{i} ({defn(i)["PROPERTY"]}): caught by {hit}')
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--checks': checks(a[1], a[2:])
    else:
        for i in a: plant(i)
