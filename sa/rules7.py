"""Feature configurations (P27): the rules of the other properties hold in every configuration alike."""
import extract, time
from spec import *
from session import *
import loops
import client, iters, rules2, rules3, rules4

# configuration -> log statements enabled?
QUICK = [('nodefault', None), ('log', True), ('nodefault-log', False), ('release', None)]
THOROUGH = [('nodefault', None), ('alloc', None), ('std', None), ('log', True), ('log', False), ('nodefault-log', True), ('nodefault-log', False), ('release', None)]
BUILDS = ['default', 'nodefault', 'alloc', 'std', 'log', 'nodefault-log', 'rs4xx', 'release']

def items(S):
    """Everything the protocol rules look at in one configuration."""
    out = [('client', r['path']) for r in S.roots]
    out += [('iter', t) for t in iters.tasks()]
    seen = []
    for p in rules2.PR:
        for t in rules2.tasks(p):
            if t not in seen: seen.append(t)
    owned = any(r['name'] == 'read_owned' for r in S.roots)
    out += [('dev', t) for t in seen if owned or t not in (('conv', True), ('dev', 'read_owned'))]
    out += [('recv', None)]
    out += [('p05', x) for x in rules3.recv_roots(S)] + [('p25', x) for x in rules3.p25(S)]
    return [x for i, x in enumerate(out) if x not in out[:i]]

def one(S, t, prop):
    k, x = t
    out = {}
    try:
        if k == 'client': out = client.analyse(S, x)
        elif k == 'iter': out = iters.run_task(S, x)
        elif k == 'dev': out = rules2.run_task(S, x)
        elif k == 'recv':
            out = rules4.recv_rules(S)
        elif k == 'p05': out = {'P05': rules3.p05_one(S, x)}
        elif k == 'p25': out = {'P25': rules3.p25_one(S, x)}
    except Missing as e:
        r = Rep(); r.must(False, f'{k} {x}: anchor missing', str(e)); out = {'-': r}
    except (Unsup, Split, RecursionError) as e:
        r = Rep(); r.ob += 1; r.und[f'{k} {x}: analysis incomplete'] = str(e)[:160]; out = {'-': r}
    return list(out.items())

ROLES = [None]      # names of the indices of the read buffer, as inferred in the default configuration
def survey(config, log_on=None):
    """(violations and undecided obligations by key, discharged keys, merged report) of one configuration."""
    S = Session(config, log_on=log_on)
    rep = Rep()
    if config == 'default':
        try: ROLES[0] = tuple(S.L.names[i] for i in rules4.roles(S))
        except (Unsup, Missing): pass
    else: S.roles = ROLES[0]
    viol = {}; und = {}; good = set()
    for res in S.parallel(one, items(S), ''):
        for p, r in res:
            for key, v in r.viol.items(): viol.setdefault((p, key), v)
            for key, v in r.und.items(): und.setdefault((p, key), v)
            good |= {(p, key) for key in r.good}
            r.viol = {}; r.und = {}; r.good = set()
            rep.add(r)
    return viol, und, good - set(viol) - set(und), rep

def functions(config):
    return {r['path']: r for r in extract.load(config)['roots'] if r['pub'] and r['reachable'] and not r['derived'] and not r['fmt']}

def may_lack(r, feats):
    """The function needs a feature that is disabled."""
    text = r['path'] + ' ' + r['sig']
    if 'serial2' not in feats and ('serial2' in text or r['name'] in ('open', 'open_with_buffers')): return True
    if 'alloc' not in feats and ('alloc::' in text or 'Vec<' in text or (r['name'] == 'new' and re.search(r'(Client|Device)', r['path'])) or 'owned' in r['name']): return True
    return False

def run(tier):
    rep = Rep()
    t0 = time.time()
    base = functions('default')
    for c in BUILDS:
        try: fs = functions(c)
        except extract.ExtractError as e:
            if e.config and extract.builds(e.config): rep.und[f'configuration {c} could not be extracted'] = str(e)[-200:]
            else: rep.must(False, f'configuration {c} builds', str(e)[-300:])
            continue
        rep.must(True, f'configuration {c} builds', '')
        feats = extract.load(c)['features']
        for p, r in base.items():
            if may_lack(r, feats): continue
            rep.must(p in fs, f'configuration {c}: {short(p)} exists', 'function not found')
    if rep.viol: return rep
    v0, u0, g0, r0 = survey('default')
    rep.add(r0)
    rep.notes.append(f'default: {r0.ok} obligations, {len(v0)} violated (judged by the other properties)')
    for c, log_on in (THOROUGH if tier == 'thorough' else QUICK):
        name = c if log_on is None else f'{c}, log level {"trace" if log_on else "off"}'
        if time.time() - t0 > 500:
            rep.und[f'[{name}] not analysed'] = 'time limit'
            continue
        v, u, g, r = survey(c, log_on)
        rep.add(r)
        rep.notes.append(f'{name}: {r.ok} obligations discharged, {len(u)} undecided')
        for (p, k), d in v.items():
            if (p, k) in v0 or (p, k) in u0: continue
            rep.must(False, f'[{name}] {p}: {k}', d)
        for (p, k), d in v0.items():
            if (p, k) in g: rep.must(False, f'[default features, unlike {name}] {p}: {k}', d)
        for (p, k), d in u.items():
            if (p, k) not in u0: rep.und[f'[{name}] {p}: {k}'] = d
    return rep
