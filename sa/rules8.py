"""The static buffer macro (P23): a witness crate with several occurrences is expanded and type-checked by the compiler
and its MIR is analysed; the guard is a linear resource."""
import extract
from spec import *
import models, interp
from models import ret, some, none, ok, err, deref
from values import Prog

SIZES = (0, 1, 16, 128, 65536)
SOURCE = '#![no_std]\n' + ''.join(f"pub fn take_{n}() -> &'static mut [u8] {{ dynamixel2::static_buffer!({n}) }}\n" for n in SIZES) + '''
pub fn pair() -> (&'static mut [u8], &'static mut [u8]) { (dynamixel2::static_buffer!(24), dynamixel2::static_buffer!(24)) }
'''
ATOMIC = 'core::sync::atomic::'

def hook(I, st, fr, c, a, ty, span, aty):
    path, orig = c['path'], c['orig']
    nm = path.rsplit('::', 1)[1]
    if not (path.startswith((ATOMIC, 'core::sync::Atomic')) and a and isinstance(a[0], Ptr)): return None
    loc = (a[0].cell, a[0].path)
    F = st.F
    def num(v): return v if isinstance(v, Poly) else ONE if v is True else ZERO if v is False else None
    isb = 'AtomicBool' in path or 'Atomic<bool>' in path or any(I.P.types[x].get('k') == 'bool' for x in aty[1:])
    info = INTS['u8'] if isb else None
    for x in aty[1:]:
        if I.P.types[x].get('k') == 'int': info = INTS[I.P.types[x]['name']]
    if info is None:
        t = I.P.types[ty]
        if t.get('k') == 'int': info = INTS[t['name']]
        elif t.get('k') == 'bool': info = INTS['u8']; isb = True
        else: raise Unsup('atomic operation ' + path)
    lo, hi = (0, 1) if isb else (info[0], info[1])
    k = st.n; st.n += 1
    old = sym(('atom', k), lo, hi)
    def val(v): return eq(v - 1) if isb else v
    vs = [num(v) for v in a[1:]]
    if nm == 'load':
        st.ev = st.ev + (('load', loc, old),)
        return ret(st, val(old))
    if nm == 'store':
        st.ev = st.ev + (('store', loc, vs[0]),)
        return ret(st, UNIT)
    if nm in ('swap', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_nand', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min', 'fetch_not'):
        v = vs[0] if vs else None
        def cases():
            if nm == 'swap': return v
            if nm == 'fetch_add':
                return old + v if hi >= (1 << 63) else I.wrap(st, old + v, info)
            if isb and v is not None and v.const() is not None:
                b = int(v.const())
                if nm == 'fetch_or': return ONE if b else old
                if nm == 'fetch_and': return old if b else ZERO
                if nm == 'fetch_xor': return ONE - old if b else old
                if nm == 'fetch_nand': return ONE - old if b else ONE
            if nm == 'fetch_not': return ONE - old
            if nm == 'fetch_max' and v is not None: return v if I.truth(st, ge(v - old)) else old
            raise Unsup('atomic operation ' + nm)
        new = cases()
        if new is None: raise Unsup('value of an atomic operation')
        st.ev = st.ev + (('rmw', loc, old, F.norm(new)),)
        return ret(st, val(old))
    if nm in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
        exp, new = vs[0], vs[1]
        hit = I.truth(st, eq(old - exp))
        if hit and nm.endswith('weak') and models.decide_fork(I, st, ('spurious', k)):
            st.ev = st.ev + (('spurious', loc, old),)
            return ret(st, err(I, ty, val(old)))
        if hit: st.ev = st.ev + (('rmw', loc, old, F.norm(new)),)
        else: st.ev = st.ev + (('load', loc, old),)
        if nm == 'compare_and_swap': return ret(st, val(old))
        return ret(st, ok(I, ty, val(old)) if hit else err(I, ty, val(old)))
    raise Unsup('atomic operation ' + nm)

def mutref(I, st, cell, path):
    if isinstance(cell, tuple) and cell[0] == 'static': st.ev = st.ev + (('mutref', cell, path),)

def initial(statics, loc):
    s = statics.get(loc[0][1])
    if s is None: return None
    if s['zero'] or not s['size']: return 0
    if s['bytes'] is not None and not loc[1]: return int.from_bytes(bytes(s['bytes']), 'little')
    return None

def slices(v):
    if isinstance(v, Agg): return [x for f in v.fields for x in slices(f)]
    return [v]

def p23(tier):
    rep = Rep()
    for profile in ('dev', 'release'): expand(rep, profile)
    return rep

def expand(rep, profile):
    P = Prog(extract.load_witness('witness', SOURCE, profile=profile))
    statics = {s['id']: s for s in P.d['statics']}
    used = {}
    for r in sorted(P.roots, key=lambda r: r['path']):
        nm = r['path'].split('::')[-1]
        if nm.startswith('take_') or nm == 'pair': analyse(rep, P, statics, r, nm, used)
    # every occurrence has memory and a guard of its own
    for what in ('guard', 'memory'):
        seen = {}
        for (occ, w), ids in used.items():
            if w != what: continue
            for i in ids:
                rep.must(seen.setdefault(i, occ) == occ, f'{what} of every occurrence is its own', f'{i} is used by {seen[i]} and {occ}')
    rep.must(len({o for o, _ in used}) >= len(SIZES) + 2, 'every occurrence has a guard and memory', str(list(used))[:300])

def analyse(rep, P, statics, r, nm, used):
    I = interp.Interp(P, {'external': hook, 'mutref': mutref}, {})
    b = P.bodies[r['body']]
    class R: pass
    R = R(); R.root = r; R.I = I; R.error = None; R.outs = []; R.body = b; R.time = 0
    st = St(); R.st0 = st; R.entry = st.copy()
    try: R.outs = [o for o in I.run_body(st, b, [], None, None) if not o[0].F.infeasible()]
    except Unsup as u: R.error = str(u)
    rep.saw(R)
    if R.error: return
    n = 0
    for st, kind, v in R.outs:
        F = st.F
        guards = []      # locations with a won exchange, in order
        for e in st.ev:
            if e[0] == 'store':
                i = initial(statics, e[1]) if e[1][0][0] == 'static' else None
                rep.must(lambda: i is not None and e[2] is not None and ne_known(F, e[2] - i), f'{nm}: the guard is never reset', 'a store to the guard can restore its initial value', st)
            if e[0] == 'rmw':
                loc, old, new = e[1:]
                i = initial(statics, loc) if loc[0][0] == 'static' else None
                rep.must(i is not None, f'{nm}: the guard is a static item with a known initial value', str(loc)[:200], st)
                if i is None: continue
                rep.must(not statics[loc[0][1]]['thread_local'], f'{nm}: the guard is shared by all threads', '', st)
                won = F.prove_eq(old, C(i))
                differs = ne_known(F, new - i)
                if won:
                    rep.must(differs, f'{nm}: the exchange marks the buffer as used', f'new value {new}', st)
                    guards.append(loc)
                elif not ne_known(F, old - i):
                    rep.viol[f'{nm}: result of the exchange is examined'] = f'old value {old}; {F.show()[:200]}'
                else:
                    rep.must(differs, f'{nm}: the guard is never reset', f'an evaluation that finds the buffer used leaves the value {new}', st)
            if e[0] == 'mutref':
                k = sum(1 for x in st.ev[:st.ev.index(e)] if x[0] == 'rmw' and F.prove_eq(x[2], C(initial(statics, x[1]) or 0)))
                rep.must(k > 0, f'{nm}: no mutable reference before the guard is won', str(e[1])[:200], st)
        if kind == 'panic':
            lost = any(x[0] in ('rmw', 'load') and initial(statics, x[1]) is not None and ne_known(F, x[2] - initial(statics, x[1])) for x in st.ev)
            rep.must(lost, f'{nm}: panics only if the buffer was given out before', str(st.ev)[:200], st)
        if kind != 'ret': continue
        n += 1
        want = [24, 24] if nm == 'pair' else [int(nm[5:])]
        got = slices(v)
        rep.must(len(got) == len(want), f'{nm}: returns the buffer', str(v)[:200], st)
        cells = []
        for j, (q, w) in enumerate(zip(got, want)):
            if not isinstance(q, Slice) or q.cell[0] != 'static' or q.cell[1] not in statics:
                rep.viol[f'{nm}: the memory is a static item'] = str(q)[:200]; continue
            sv = statics[q.cell[1]]
            rep.must(lambda: F.prove_eq(q.len, C(w)), f'{nm}: has the requested size', str(q)[:200], st)
            rep.must(lambda: F.prove_eq(q.off, ZERO) and sv['size'] >= w, f'{nm}: is the whole memory', f'{q} of {sv["size"]}'[:200], st)
            rep.must(sv['zero'] or sv['size'] == 0, f'{nm}: starts zeroed', sv['path'], st)
            rep.must(not sv['thread_local'], f'{nm}: memory is not per thread', sv['path'], st)
            rep.must(len(guards) > j, f'{nm}: gives the memory out only after winning an atomic exchange', str(st.ev)[:300], st)
            cells.append(q.cell[1])
            if len(guards) > j:
                used.setdefault((f'{nm}.{j}', 'guard'), []).append(str(guards[j]))
                used.setdefault((f'{nm}.{j}', 'memory'), []).append(q.cell[1])
        rep.must(len(set(guards)) == len(guards) or len(want) == 1, f'{nm}: one guard for each buffer', str(guards)[:200], st)
    rep.some(R, n > 0, f'{nm}: hands out the buffer on the first evaluation')

def ne_known(F, p): return F.decide(eq(p)) is False
