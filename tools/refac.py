#!/usr/bin/env python3
"""Development tool: applies a behaviour-preserving edit set (tools/refac/NAME.py: EDITS=[(file, old, new)] or a
mutation set) to a scratch copy of /repo, runs its tests, and then every check (or the listed ones) against it.

refac.py NAME [P..]"""
import json, os, subprocess, sys, concurrent.futures as cf, queue
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plant
J = int(os.environ.get('J', '5'))
def main(name, props):
    w = f'/tmp/refac/{name}'
    os.makedirs('/tmp/refac', exist_ok=True)
    plant.fresh(w)
    g = {}
    exec(open(os.path.join(HERE, 'refac', name + '.py')).read(), g)
    for f, old, new, *n in g['EDITS']:
        p = os.path.join(w, f); s = open(p).read()
        assert old in s, f'text not found in {f}: {old[:80]}'
        if s.count(old) != 1 and not n: raise SystemExit(f'text occurs {s.count(old)} times in {f}: {old[:80]}')
        s = s.replace(old, new)
        open(p, 'w').write(s)
    t, out = plant.tests(w)
    if not t: print(out[-3000:]); raise SystemExit('tests fail')
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    props = props or [c['property'] for c in man['checks']]
    props.sort(key=lambda p: p != 'P27')
    q = queue.Queue()
    for i in range(J): q.put(f'/tmp/rw{i}')
    def run(p):
        wd = q.get(); os.makedirs(wd, exist_ok=True)
        r = plant.sh(f'VERIF_REPO={w} VERIF_WORK={wd} timeout 900 python3 {VERIF}/sa/check.py --property {p}')
        q.put(wd)
        return p, r
    bad = []
    with cf.ThreadPoolExecutor(J) as ex:
        for p, r in ex.map(run, props):
            if r.returncode:
                bad.append(p)
                print(p, 'rc', r.returncode)
                ls = r.stdout.splitlines()
                hits = [i for i, l in enumerate(ls) if 'violated' in l]
                for i in hits[:4]: print('   ', ls[i][:330], '|', (ls[i+1] if i + 1 < len(ls) else '').strip()[:330])
                if not hits: print('\n'.join(ls[-4:])[-700:])
    print(f'{name}: {len(props)} checks, alarms: {bad}')
main(sys.argv[1], sys.argv[2:])
