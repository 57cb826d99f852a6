#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of rules (sa/props.py) and the list of properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'sa'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
NA = {
    'P30': 'Quantifies over scheduling delays, driver latency and traffic at run time; no static argument over the source bounds them. The static parts (one deadline per wait, passed unchanged to every read; no wait without a read) are P06, P19 and P28.',
}
checks, na = [], []
for i in ids:
    if i in props.REG:
        p = props.REG[i]
        checks.append({'property': i, 'quick_cmd': f'python3 sa/check.py --property {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 sa/check.py --property {i}',
                       'technique': p.technique, 'level': p.level, 'level_note': p.rule + '. ' + p.note + ' Assumes: ' + '; '.join(p.assumptions) + '.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not decided yet: the analysis for it is not built.')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks decide by static analysis of the MIR the compiler produces from the current tree of /repo; nothing of /repo is executed. No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not applicable')
