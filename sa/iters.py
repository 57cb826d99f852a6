"""Rules about the multi-response iterators and scanning (P14, P15, P17, P18, P19, P24).

Nothing is assumed about the private fields of the iterators. The awaited motor and the expected number of parameters
in a state s are observed from the partitions of one step (next) from s; what happens over a whole iteration follows by
induction: after creation the first element is awaited, and each step from an arbitrary state advances by one element."""
from spec import *
from session import *
import client as cl
from client import single_wait, reply, transfer_time, bus_fields

ITERS = {   # struct -> (creating functions, stepping functions, typed)
    'SyncReadBytes': (('sync_read_bytes', 'sync_read_bytes_borrow'), ('read_next', 'read_next_borrow', 'next'), False),
    'SyncRead': (('sync_read',), ('read_next', 'next'), True),
    'BulkReadBytes': (('bulk_read_bytes', 'bulk_read_bytes_borrow'), ('read_next', 'read_next_borrow', 'next'), False),
}
def itname(r):
    m = re.search(r'(\w+)<', r['self_ty'].split('::')[-1])
    m = re.match(r'(?:[\w]+::)*(\w+)', r['self_ty'])
    return m.group(1) if m else ''
def method(S, struct, name):
    c = [r for r in S.roots if itname(r) == struct and r['name'] == name]
    c.sort(key=lambda r: bool(r['trait']) and name != 'next')
    return c[0] if c else None

def step(S, I, st, f, ptr):
    return [(s, k, v) for s, k, v in I.run_body(st.copy(), S.P.bodies[f['body']], [ptr], None, None) if not s.F.infeasible()]

def remaining(S, I, st, struct, ptr):
    """Values of remaining() in a state."""
    f = method(S, struct, 'remaining')
    if f is None: raise Missing(f'{struct}::remaining')
    return [(s, v) for s, k, v in step(S, I, st, f, ptr) if k == 'ret']
def rem_is(S, I, st, struct, ptr, want):
    outs = remaining(S, I, st, struct, ptr)
    return bool(outs) and all(s.F.prove_eq(v, want) for s, v in outs)

def observe(I, outs):
    """Awaited motor ID and expected number of parameters, from the partitions of one step."""
    ids, cnts = [], []
    for s, k, v in outs:
        if k != 'ret': continue
        r = Res(I, v)
        if r.ok is False and r.chain[-1:] == ['InvalidPacketId'] and isinstance(r.leaf, Agg):
            e = field(I, r.leaf, 'expected')
            if isinstance(e, Agg) and e.variant == 1: ids.append((s, e.fields[0]))
        if r.ok is False and r.chain[-1:] == ['InvalidParameterCount'] and isinstance(r.leaf, Agg):
            e = field(I, r.leaf, 'expected')
            if isinstance(e, Agg) and vname(I, e)[1] == 'Exact': cnts.append((s, e.fields[0]))
    return ids, cnts

def one(xs):
    vals = []
    for s, v in xs:
        n = s.F.norm(v)
        if n not in vals: vals.append(n)
    return vals[0] if len(vals) == 1 else None

def shift(x, d=1):
    """Replaces element k of the list by element k + d: the atom of an element has a key (.., 'el', k, ..)."""
    hit = [0]
    def go(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[1] == 'el' and isinstance(k[2], Poly): hit[0] += 1; return (go(k[0]), 'el', k[2] + d)
            r = tuple(go(y) for y in k)
            return r if r != k else k
        return k
    def sub(p):
        out = ZERO
        for m, c in p.t.items():
            term = C(c)
            for i in m:
                a = ATOMS[i]
                term = term * (A(atom('sym', go(a.args), a.lo, a.hi)) if a.kind == 'sym' else A(a))
            out = out + term
        return out
    r = sub(x)
    return r, hit[0]

def index_of(x):
    """Index polynomial of the list element an expression mentions."""
    found = []
    def go(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[1] == 'el' and isinstance(k[2], Poly): found.append((k[0], k[2]))
            for y in k: go(y)
    for m, c in x.t.items():
        for i in m:
            if ATOMS[i].kind == 'sym': go(ATOMS[i].args)
    return found[0] if found else None

PR = ('P14', 'P15', 'P17', 'P18', 'P19', 'P24', 'P10')

# ------------------------------------------------------------------ one step from an arbitrary state
def analyse_step(S, struct, fname):
    reps = {p: Rep() for p in PR}
    typed = ITERS[struct][2]
    f = method(S, struct, fname)
    nm = f'{struct}::{fname}'
    if f is None:
        for p in PR: reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(f)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I
    self_ = R.args[0]
    st0 = R.entry
    ids, cnts = observe(I, R.outs)
    e0, c0 = one(ids), one(cnts)
    rep = reps['P17']
    some = []
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        evs = list(events(I, st.ev))
        aw = [e for e, s in evs if e[0] == 'await']
        other = [e[0] for e, s in evs if e[0] in ('read', 'write', 'discard', 'baud_set')]
        rep.must(not other, f'{nm}: only waits for a reply', str(other), st)
        if res.none:
            rep.must(not aw, f'{nm}: the end of the iteration does not touch the port', '', st)
            rep.must(lambda: rem_is(S, I, st, struct, self_, ZERO), f'{nm}: ends only when no response remains', '', st)
            continue
        rep.must(len(aw) == 1 and not any(s for e, s in evs if e[0] == 'await'), f'{nm}: awaits exactly one reply per item', f'{len(aw)} waits', st)
        if len(aw) != 1: continue
        r0 = remaining(S, I, st0_with(st0, st), struct, self_)
        rep.must(lambda: len(r0) == 1 and every(I, st, lambda s: s.F.prove_ge(r0[0][1] - 1)), f'{nm}: an item is only produced while responses remain', '', st)
        if len(r0) == 1:
            rep.must(lambda: rem_is(S, I, st, struct, self_, r0[0][1] - 1), f'{nm}: every item reduces the remaining responses by one', '', st)
        some.append((st, v, res, aw[0]))
    rep.some(R, some, f'{nm}: produces items', '')
    rep.must(any(Res(I, v).none for s, k, v in R.outs if k == 'ret'), f'{nm}: ends', '')
    reps['P14'].must(e0 is not None, f'{nm}: the packet ID of the reply is checked against one motor of the list', str([str(x[1]) for x in ids])[:200], R.outs[0][0] if R.outs else None)
    reps['P14'].must(c0 is not None, f'{nm}: the number of parameters of the reply is checked', str([str(x[1]) for x in cnts])[:200], R.outs[0][0] if R.outs else None)
    if e0 is None or c0 is None: return reps
    # the awaited element: list[len - remaining]
    ix = index_of(e0)
    rep.must(ix is not None, f'{nm}: awaits a motor of the requested list', str(e0))
    fs = bus_fields(S, I, st0.copy(), R.args)
    baud = fs[S.L.baud] if fs is not None else None
    for st, v, res, aw in some:
        evs = list(events(I, st.ev))
        single_wait(S, R, st, reps, nm, aw, evs, baud, c0, 11, typed=typed)
        kind = 'value' if typed else 'bytes'
        reply(S, R, st, v, res, reps, nm, aw, e0, c0, kind, typed)
        # the next step awaits the next element
        g = method(S, struct, 'read_next')
        if g is None: continue
        outs = step(S, I, st, g, self_)
        i2, c2 = observe(I, [(s, k, x) for s, k, x in outs if k == 'ret' and newer(s, st)])
        if not i2:
            rep.must(lambda: rem_is(S, I, st, struct, self_, ZERO), f'{nm}: continues until every motor was awaited', '', st); continue
        rep.must(lambda: all(s.F.prove_eq(x, shift(e0)[0]) for s, x in i2), f'{nm}: awaits the motors in the requested order', f'{i2[0][1]} after {e0}', st)
        reps['P14'].must(lambda: all(s.F.prove_eq(x, shift(c0)[0]) for s, x in c2), f'{nm}: expects the requested number of parameters of every motor', f'{[str(x[1]) for x in c2[:1]]} after {c0}', st)
    return reps
def newer(s, st): return len(s.ev) > len(st.ev)
def st0_with(st0, st):
    """The cells of the entry state under the facts of a later state."""
    s = st0.copy(); s.F = st.F; s.res = dict(st.res) if hasattr(st.res, 'items') else st.res
    return s

# ------------------------------------------------------------------ creation
def analyse_create(S, struct, cname):
    reps = {p: Rep() for p in PR}
    typed = ITERS[struct][2]
    c = [r for r in S.roots if cl.is_client(r) and r['name'] == cname]
    nm = f'Client::{cname}'
    if not c:
        for p in PR: reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(c[0])
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I; a = R.args
    g = method(S, struct, 'read_next')
    rep = reps['P17']
    n_ok = 0
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        if not res.ok: continue
        n_ok += 1
        it = res.val
        lst = as_slice(I, st, a[1])
        st = st.copy()
        cell = ('tmp', 'iter')
        st.cells[cell] = it
        p = Ptr(cell, ())
        rep.must(lambda: rem_is(S, I, st, struct, p, lst.len), f'{nm}: one response per requested motor remains', '', st)
        E = cl.esize(I, st, None)
        outs = step(S, I, st, g, p)
        if all(k == 'ret' and Res(I, x).none for s, k, x in outs) and not I.stuck:
            rep.must(st.F.prove_eq(lst.len, ZERO), f'{nm}: ends at once only for an empty list', '', st)
            continue
        ids, cnts = observe(I, outs)
        if struct == 'BulkReadBytes':
            t = S.P.types[find_adt(S.P, 'BulkReadData')]
            names = [x['name'] for x in t['variants'][0]['fields']]
            b = (lst.cell, 'el', lst.off)
            wid = sym(cl.fld(b, names.index('motor_id')), 0, 255); wc = sym(cl.fld(b, names.index('count')), 0, 65535)
        else:
            wid = ext_byte(I, lst, ZERO); wc = E if typed else a[3]
        rep.must(bool(ids) and all(s.F.prove_eq(x, wid) for s, x in ids), f'{nm}: the first item is the first requested motor', str([str(x[1]) for x in ids])[:120], st)
        for q in ('P14', 'P17') + (('P10',) if typed else ()):
            reps[q].must(bool(cnts) and all(s.F.prove_eq(x, wc) for s, x in cnts), f'{nm}: expects the requested number of parameters', str([str(x[1]) for x in cnts])[:120], st)
    rep.some(R, n_ok > 0, f'{nm}: creates an iterator', '')
    return reps

# ------------------------------------------------------------------ dropping
def analyse_drop(S, struct):
    reps = {p: Rep() for p in PR}
    f = method(S, struct, 'drop')
    nm = f'{struct}::drop'
    rep = reps['P17']
    if f is None:
        rep.must(False, f'{nm} exists', 'function not found'); return reps
    R = S.run(f)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I
    self_ = R.args[0]
    st0 = R.entry
    infos = {l['lid']: l for l in I.loopinfo if l['lid'] is not None}
    fs = bus_fields(S, I, st0.copy(), R.args)
    baud = fs[S.L.baud] if fs is not None else None
    # what a step from the same state expects
    g = method(S, struct, 'read_next')
    ids, cnts = observe(I, step(S, I, st0, g, self_)) if g is not None else ([], [])
    e0, c0 = one(ids), one(cnts)
    done = set()
    for st, k, v in R.outs:
        if k != 'ret': continue
        total = ZERO
        bad = []
        for e in st.ev:
            if e[0] == 'star':
                l = infos.get(e[1])
                alts = interp.LOOPS.get(e[1], ())
                ns = {sum(1 for x, s in events(I, alt) if x[0] == 'await') for alt in alts}
                if any(x[0] in ('write', 'discard', 'read') for alt in alts for x, s in events(I, alt)): bad.append('other port operations')
                if len(ns) > 1: bad.append(f'{sorted(ns)} waits per iteration')
                n = max(ns) if ns else 0
                if n and l is None: raise Unsup('loop without summary')
                if n: total = total + (l['k'] if isinstance(l['k'], Poly) else A(l['k'])) * n
                if n and e[1] not in done and c0 is not None and l is not None:
                    done.add(e[1])
                    check_iteration(S, R, reps, nm, l, baud, c0, ITERS[struct][2])
            elif e[0] == 'await': total = total + 1
            elif e[0] in ('write', 'discard', 'read'): bad.append(e[0])
        rep.must(not bad, f'{nm}: awaits one reply at a time and nothing else', '; '.join(bad), st)
        r0 = remaining(S, I, st0_with(st0, st), struct, self_)
        rep.must(lambda: len(r0) == 1 and every(I, st, lambda s: s.F.prove_eq(total, r0[0][1])), f'{nm}: awaits exactly one reply for each motor not yet read', f'{total} instead of {r0[0][1] if r0 else None}', st)
    return reps

def check_iteration(S, R, reps, nm, l, baud, c0, typed):
    I = R.I
    n0 = len(l['h'].ev)
    kap = l['k']
    want = shift(c0, kap)[0] if index_of(c0) is not None else c0
    for b in l['backs']:
        evs = list(events(I, b.ev[n0:]))
        aw = [e for e, s in evs if e[0] == 'await']
        if len(aw) != 1: continue
        single_wait(S, R, b, reps, nm, aw[0], evs, baud, want, 11, typed=typed)

# ------------------------------------------------------------------ size hint
def analyse_hint(S, struct):
    reps = {p: Rep() for p in PR}
    f = method(S, struct, 'size_hint')
    rep = reps['P17']
    nm = f'{struct}::size_hint'
    if f is None: return reps      # the default (0, None) is consistent
    R = S.run(f)
    rep.saw(R)
    I = R.I
    for st, k, v in R.outs:
        if k != 'ret': continue
        def good(s):
            r0 = remaining(S, I, s, struct, R.args[0])
            if len(r0) != 1: return False
            s, n = r0[0]
            lo, hi = v.fields
            if not s.F.prove_ge(n - lo): return False
            return hi.variant == 0 or s.F.prove_ge(hi.fields[0] - n)
        rep.must(lambda: every(I, st, good), f'{nm}: consistent with the remaining responses', str(v)[:120], st)
    return reps

# ------------------------------------------------------------------ scanning
def err_variant(S, I, st, n):
    """Name of the variant of the n-th receive error if it was examined."""
    t = None
    for tt in S.P.types:
        if tt.get('k') == 'adt' and tt['path'].endswith('error::ReadError'): t = tt; break
    i = st.res.get(('recverr', n))
    return t['variants'][i]['name'] if i is not None else None
def timed_out(S, I, st, n):
    """True / False / None: is the n-th receive error an I/O error that is a timeout?"""
    v = err_variant(S, I, st, n)
    if v is not None and v != 'Io': return False
    for key, val in st.F.bvs.items():
        if isinstance(key, tuple) and key[:1] == ('timeout',) and contains(key, ('recverr', n)): return val
    return None
def contains(k, x):
    if k == x: return True
    return isinstance(k, tuple) and any(contains(y, x) for y in k)

def quiet_end(S, I, st, ptr):
    """From this state scanning ends without touching the port."""
    g = method(S, 'Scan', 'scan_next')
    outs = step(S, I, st, g, ptr)
    return bool(outs) and all(k == 'ret' and Res(I, v).none and len(s.ev) == len(st.ev) for s, k, v in outs)

def goes_on(S, I, st, ptr):
    """From this state the next step awaits another reply."""
    g = method(S, 'Scan', 'scan_next')
    outs = step(S, I, st, g, ptr)
    return bool(outs) and all(len(s.ev) > len(st.ev) for s, k, v in outs if k == 'ret')

def analyse_scan(S, fname):
    reps = {p: Rep() for p in PR}
    f = method(S, 'Scan', fname)
    nm = f'Scan::{fname}'
    rep = reps['P18']
    if f is None:
        for p in ('P18', 'P14', 'P15', 'P19'): reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(f)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I
    fs = bus_fields(S, I, R.entry.copy(), R.args)
    baud = fs[S.L.baud] if fs is not None else None
    if fname == 'drop':
        for l in I.loopinfo:
            n0 = len(l['h'].ev)
            for b in l['backs']:
                evs = list(events(I, b.ev[n0:]))
                aw = [e for e, s in evs if e[0] == 'await']
                rep.must(len(aw) == 1, f'{nm}: every repetition awaits one reply', f'{len(aw)} waits', b)
                if len(aw) != 1: continue
                single_wait(S, R, b, reps, nm, aw[0], evs, baud, C(3), 11, times=253)
                if aw[0][2] == 'ok': rep.ob += 1; rep.ok += 1; continue
                n = aw[0][3]
                v = err_variant(S, I, b, n)
                rep.must(v is not None, f'{nm}: errors of the port end the scan', 'continues after any receive error', b)
                if v == 'Io':
                    rep.must(timed_out(S, I, b, n) is False, f'{nm}: ends at a timeout', '', b)
                    rep.must(lambda: quiet_end(S, I, b, R.args[0]), f'{nm}: ends after an error of the port', 'the port is read again', b)
                rep.must(v != 'BufferFull', f'{nm}: ends when the read buffer is too small', 'the receive is repeated', b)
        for st, k, v in R.outs:
            if k != 'ret': continue
            evs = list(events(I, st.ev))
            for e, star in evs:
                rep.must(e[0] not in ('write', 'discard', 'read'), f'{nm}: only waits for replies', e[0], st)
            last = [e for e, s in evs if e[0] == 'await' and not s]
            # leaves only at a timeout, at an error of the port or buffer, or when the scan had ended already
            if last:
                n = last[-1][3]
                v = err_variant(S, I, st, n)
                rep.must(last[-1][2] == 'err' and v in ('Io', 'BufferFull'), f'{nm}: replies are drained until the scan ends', f'stops after {last[-1][2]} {v}', st)
                if last[-1][2] == 'err': single_wait(S, R, st, reps, nm, last[-1], [x for x in evs if not x[1]], baud, C(3), 11, times=253)
            else:
                heads = [l for l in I.loopinfo]
                rep.must(lambda: every(I, st, lambda s: quiet_end(S, I, s, R.args[0])), f'{nm}: leaves without waiting only when the scan has ended', '', st)
        return reps
    nsome = ntimeout = 0
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        evs = list(events(I, st.ev))
        aw = [e for e, s in evs if e[0] == 'await']
        rep.must(not any(e[0] in ('read', 'write', 'discard') for e, s in evs), f'{nm}: only waits for a reply', '', st)
        if not aw:
            rep.must(res.none and not evs, f'{nm}: without waiting it can only end', str(v)[-120:], st)
            # ended for good
            rep.must(lambda: quiet_end(S, I, st, R.args[0]), f'{nm}: stays ended', '', st)
            continue
        rep.must(len(aw) == 1 and not any(s for e, s in evs if e[0] == 'await'), f'{nm}: awaits one reply per item', f'{len(aw)} waits', st)
        single_wait(S, R, st, reps, nm, aw[-1], evs, baud, C(3), 11, times=253)
        if aw[-1][2] == 'ok':
            rep.must(not res.none, f'{nm}: every received packet is reported', 'no item', st)
            if not res.none:
                nsome += 1
                r2 = {p: Rep() for p in PR}
                reply(S, R, st, v, res, r2, nm, aw[-1], None, C(3), 'ping', False)
                for p in PR: reps[p].add(r2[p])
                rep.add(r2['P14']); rep.add(r2['P15'])
                rep.must(lambda: goes_on(S, I, st, R.args[0]), f'{nm}: after a reply the scan goes on', str(v)[-120:], st)
            continue
        n = aw[-1][3]
        to = timed_out(S, I, st, n)
        ev = err_variant(S, I, st, n)
        if res.none:
            ntimeout += 1
            rep.must(to is True, f'{nm}: ends only at a timeout of the port', f'{ev} timeout={to}', st)
        else:
            rep.must(to is False, f'{nm}: a timeout of the port ends the scan', str(v)[-120:], st)
            reply(S, R, st, v, res, reps, nm, aw[-1], None, C(3), 'ping', False)
            if ev == 'Io' and to is False:
                rep.must(lambda: quiet_end(S, I, st, R.args[0]), f'{nm}: after another error of the port the scan has ended', 'the port is read again', st)
            elif ev is not None and ev != 'BufferFull':
                rep.must(lambda: goes_on(S, I, st, R.args[0]), f'{nm}: after an error that is not of the port the scan goes on', str(v)[-120:], st)
            rep.must(ev is not None, f'{nm}: errors of the port are told from invalid messages', '', st)
    rep.some(R, nsome > 0, f'{nm}: reports replies', '')
    rep.some(R, ntimeout > 0, f'{nm}: ends at a timeout', '')
    return reps

def analyse_scan_create(S, cname):
    reps = {p: Rep() for p in PR}
    rep = reps['P18']
    c = [r for r in S.roots if cl.is_client(r) and r['name'] == cname]
    nm = f'Client::{cname}'
    if not c:
        rep.must(False, f'{nm} exists', 'function not found'); return reps
    R = S.run(c[0])
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I
    g = method(S, 'Scan', 'scan_next')
    n = 0
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        if not res.ok: continue
        n += 1
        st = st.copy()
        st.cells[('tmp', 'iter')] = res.val
        outs = step(S, I, st, g, Ptr(('tmp', 'iter'), ()))
        rep.must(bool(outs) and all(len(s.ev) > len(st.ev) for s, k, x in outs if k == 'ret'), f'{nm}: a new scan awaits replies', '', st)
    rep.some(R, n > 0, f'{nm}: creates a scan', '')
    return reps

def tasks():
    out = [('screate', 'Scan', 'scan')]
    for s, (cs, fs, typed) in ITERS.items():
        for c in cs: out.append(('create', s, c))
        for f in fs: out.append(('step', s, f))
        out.append(('drop', s, None)); out.append(('hint', s, None))
    for f in ('scan_next', 'next', 'drop'): out.append(('scan', 'Scan', f))
    return out
def run_task(S, t):
    k, s, f = t
    try:
        if k == 'create': return analyse_create(S, s, f)
        if k == 'step': return analyse_step(S, s, f)
        if k == 'drop': return analyse_drop(S, s)
        if k == 'screate': return analyse_scan_create(S, f)
        if k == 'hint': return analyse_hint(S, s)
        return analyse_scan(S, f)
    except (Unsup, Split, RecursionError) as e:
        r = {p: Rep() for p in PR}
        for p in r: r[p].und[f'{s}::{f or k}: analysis incomplete'] = str(e)[:160]
        return r
