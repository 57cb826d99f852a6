#!/usr/bin/env python3
"""check.py --property Pxx: decides one property from the current source of /repo.

Exit 0: every obligation is discharged (or listed as undecided, or as a known finding); exit 1: VIOLATION line."""
import argparse, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key="([^"]*)"\s*(.*)', l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.property
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    import extract
    from spec import Rep, Missing
    import props
    p = props.REG[prop]
    rep = Rep()
    try:
        rep = p.run(a.tier)
        if rep.ob == 0: rep.viol['the analysis found nothing to check'] = 'all functions this property is anchored at are missing'
    except Missing as e:
        rep.viol['anchor missing'] = str(e)
    except extract.ExtractError as e:
        if getattr(e, 'config', None) and extract.builds(e.config):
            # The tree is fine, the compiler front end of this analysis is not.
            print('the analysed program could not be extracted: ' + str(e)[-400:])
            rep.und['the analysed program could not be extracted'] = str(e)[-300:]
        else:
            rep.viol['the crate does not build in the analysed configuration'] = str(e)[-400:]
    except Exception:
        import traceback
        tb = traceback.format_exc()
        print('the analysis failed:\n' + tb[-1500:])
        rep = Rep()
        rep.und['the analysis failed'] = tb[-300:]
    known = known_findings(prop)
    for k in list(rep.viol):
        if k in known:
            print(f'KNOWN-FINDING: property={prop} {k}')
            rep.known[k] = rep.viol.pop(k)
    wall = time.time() - t0
    cov = {
        'obligations': rep.ob, 'discharged': rep.ok, 'undecided': len(rep.und),
        'checker_cmd': f'python3 sa/check.py --property {prop}', 'trusted_base': p.trusted,
        'rule': p.rule, 'entry_points': len(rep.roots), 'functions_analysed': len(rep.fns), 'call_sites': len(rep.callsites),
        'path_partitions': rep.paths, 'samples': rep.samples[:12], 'explanation': p.rule,
        'undecided_list': [f'{k} ({v})' for k, v in list(rep.und.items())[:20]], 'notes': rep.notes[:20],
        'violated': [f'{k}: {v}' for k, v in list(rep.viol.items())[:20]], 'known_findings': list(rep.known),
    }
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': p.level, 'coverage': cov,
          'assumptions': p.assumptions, 'wall_s': round(wall, 2), 'violations': len(rep.viol)}
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {rep.ok}/{rep.ob} obligations discharged, {len(rep.und)} undecided; {len(rep.roots)} entry points, {len(rep.fns)} functions, {len(rep.callsites)} call sites, {rep.paths} path partitions; {wall:.1f} s')
    for k, v in list(rep.und.items())[:10]: print(f'  undecided: {k} ({v[:150]})')
    if rep.viol:
        path = os.path.join(evdir, prop + '.violations.txt')
        with open(path, 'w') as f:
            for k, v in rep.viol.items(): f.write(f'{k}\n    {v}\n')
        for k, v in list(rep.viol.items())[:10]: print(f'  violated: {k}\n            {v[:300]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0

if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
