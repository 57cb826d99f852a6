#!/usr/bin/env python3
"""Development tool: mutation campaign. tools/mut/NAME.py: M = {id: (props, [(file, old, new[, n])])}.
Applies each mutant in a scratch copy, runs the tests (skips those the tests kill) and the checks of its properties.

mut.py NAME [ID..]   prints for each mutant which of its checks caught it.  ALL=1: all checks."""
import json, os, sys, concurrent.futures as cf, queue
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plant
J = int(os.environ.get('J', '6'))
A = {'bus': 'src/bus/mod.rs', 'pkt': 'src/bus/packet.rs', 'stuff': 'src/bus/bytestuff.rs', 'endian': 'src/bus/endian.rs', 'data': 'src/bus/data.rs',
     'cli': 'src/client.rs', 'dev': 'src/device.rs', 'err': 'src/error.rs', 'resp': 'src/response.rs', 'crc': 'src/checksum.rs', 'imod': 'src/instructions/mod.rs',
     's2': 'src/serial_port/serial2.rs', 'main': 'dynamixel2-cli/src/bin/dynamixel2/main.rs', 'opt': 'dynamixel2-cli/src/bin/dynamixel2/options.rs', 'log': 'src/log.rs', 'lib': 'src/lib.rs'}
def path(f): return A.get(f) or (f if '/' in f else f'src/instructions/{f}.rs')
def main(name, ids):
    g = {}
    exec(open(os.path.join(HERE, 'mut', name + '.py')).read(), g)
    M = g['M']
    ids = ids or list(M)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    allp = [c['property'] for c in man['checks']]
    q = queue.Queue()
    for i in range(J): q.put(i)
    def run(i):
        k = q.get()
        try:
            w = f'/tmp/mut/{k}'; os.makedirs('/tmp/mut', exist_ok=True)
            plant.fresh(w)
            props, edits = M[i]
            for f, old, new, *n in edits:
                p = os.path.join(w, path(f)); s = open(p).read()
                if old not in s: return i, 'TEXT NOT FOUND ' + old[:60]
                if n:
                    parts = s.split(old); j = n[0]
                    if j == 'all': s = s.replace(old, new)
                    else: s = old.join(parts[:j + 1]) + new + old.join(parts[j + 1:])
                else:
                    if s.count(old) != 1: return i, f'TEXT OCCURS {s.count(old)} TIMES {old[:60]}'
                    s = s.replace(old, new)
                open(p, 'w').write(s)
            t, out = plant.tests(w)
            if not t and not os.environ.get("NOTEST"):
                return i, ('does not compile: ' + '|'.join(l for l in out.splitlines() if l.startswith('error'))[:200]) if 'could not compile' in out else 'killed by tests'
            ps = allp if os.environ.get('ALL') else props.split()
            res = []
            for p in ps:
                r = plant.sh(f'VERIF_REPO={w} VERIF_WORK=/tmp/mut/w{k} timeout 900 python3 {VERIF}/sa/check.py --property {p}')
                v = 'VIOLATION' in r.stdout
                res.append(f'{p}:' + ('caught' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else f'rc{r.returncode}'))
            return i, ' '.join(res)
        except Exception as e: return i, 'error ' + str(e)[:200]
        finally: q.put(k)
    with cf.ThreadPoolExecutor(J) as ex:
        for i, r in ex.map(run, ids):
            flag = '  ' if 'caught' in r else '!!'
            print(flag, i, r, flush=True)
main(sys.argv[1], sys.argv[2:])
