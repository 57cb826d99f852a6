"""P05 (no panics while receiving), P25 (argument checks of bulk and sync commands), P20 (the cached baud rate)."""
from spec import *
from session import *
from client import *
import models, loops

# ------------------------------------------------------------------ P05
CTOR = ('with_buffers', 'new', 'open', 'open_with_buffers', 'with_buffers_and_baud_rate')
def recv_roots(S):
    """Functions that handle received data: the public interface and the kernels below it."""
    kern = {anchor(S.P, k)['path'] for k in ('recv', 'unstuff', 'find_header')}
    out = []
    for r in S.roots:
        if r['path'] in kern: out.append(r['path']); continue
        if not (r['pub'] and r['reachable']): continue
        if r['name'] in CTOR or 'serial2' in r['self_ty'] or 'serial2' in r['path']: continue
        if r['name'] == 'check' and r['self_ty'].endswith('InvalidHeaderPrefix'): continue    # helper for slices of at least 4 bytes, not used
        if r['path'] == anchor(S.P, 'crc')['path']: continue                                # P02
        if r['name'] == 'encode' and 'data::Data' in r['path']: continue                    # P22
        out.append(r['path'])
    return sorted(set(out))

PORTEV = ('write', 'await', 'read', 'discard', 'deadline')
def p05_one(S, path, prop='P05'):
    rep = Rep()
    r = [x for x in S.roots if x['path'] == path][0]
    R = S.run(r)
    rep.saw(R)
    I = R.I; nm = short(path)
    cmd = cmd_of(r)
    n = max(1, R.I.stats['asserts'])
    bad = set()
    for p in R.I.panics:
        if p.st.F.infeasible(): continue
        # rejecting arguments before anything is sent is decided by P08 and P25
        if cmd is not None and not has(I, p.st.ev, *PORTEV) and p.kind == 'panic': continue
        k = f'{nm}: panic in {short(p.site)}: {p.msg}'
        if k in bad: continue
        bad.add(k)
        rep.must(False, k, ' > '.join(short(x) if isinstance(x, str) else str(x) for x in p.chain)[:300], p.st)
    if not R.error and not I.stuck: rep.ob += n; rep.ok += n
    elif not bad: rep.ob += 1
    if len(rep.samples) < 6: rep.samples.append(f'{nm}: {n} possible panics (bounds, arithmetic, unwraps, unsafe preconditions) unreachable')
    return rep

# ------------------------------------------------------------------ P25
def item_templates(I, st, name, a):
    """(motor id of the k-th item, length of its data or None, number of items) of a list argument, as functions of k."""
    if name.startswith('bulk_read'):
        names = [x['name'] for x in I.P.types[find_adt(I.P, 'BulkReadData')]['variants'][0]['fields']]
        sl = as_slice(I, st, a[1])
        b = lambda k: (sl.cell, 'el', k)
        return (lambda k: sym(fld(b(k), names.index('motor_id')), 0, 255)), None, sl.len
    if name == 'bulk_write':
        names = [x['name'] for x in I.P.types[find_adt(I.P, 'BulkWriteData')]['variants'][0]['fields']]
        K = ('refiter', (a[1].cell, '*'))
    else:
        names = [x['name'] for x in I.P.types[find_adt(I.P, 'SyncWriteData')]['variants'][0]['fields']]
        K = a[3].key
    n = sym((K, 'count'), 0, MAXLEN)
    mid = lambda k: sym(fld(asref_item(I, K, k), names.index('motor_id')), 0, 255)
    ln = lambda k: sym((fld(asref_item(I, K, k), names.index('data')), 'buflen'), 0, MAXLEN)
    return mid, ln, n

def match(t, x, hole):
    """Value for the placeholder that makes template t equal x, or None."""
    if isinstance(t, Poly):
        if t == A(hole): return x if isinstance(x, Poly) else None
        if t == x: return True
        if isinstance(x, Poly):
            a, b = t.single(), x.single()
            if a is not None and b is not None and a.kind == b.kind: return match(a.args, b.args, hole)
        return None
    if isinstance(t, V):
        return match(t.parts(), x.parts(), hole) if type(t) is type(x) else None
    if isinstance(t, tuple):
        if not isinstance(x, tuple) or len(t) != len(x): return None
        r = True
        for p, q in zip(t, x):
            m = match(p, q, hole)
            if m is None: return None
            if m is not True:
                if r is not True and r != m: return None
                r = m
        return r
    return True if t == x else None

def fact_atoms(st):
    """Atoms the facts of a state mention."""
    F = st.F; seen = {}
    for i, v in F.sub.items():
        seen[i] = ATOMS[i]
        for a in all_atoms(v): seen[a.id] = a
    for p in tuple(F.ges) + tuple(F.nes):
        for a in all_atoms(p): seen[a.id] = a
    for i in F.rng: seen[i] = ATOMS[i]
    for d in F.disj:
        for a in all_atoms(d): seen[a.id] = a
    return list(seen.values())

def instances(st, tmpl):
    """Indices k for which tmpl(k) occurs in the facts of a state."""
    hole = atom('bound', ('hole', fresh_id()), 0, None)
    t = tmpl(A(hole))
    out = []
    for a in fact_atoms(st):
        m = match(t, A(a), hole)
        if isinstance(m, Poly) and not any(m == x for x in out): out.append(m)
    return out

def fault(I, st, name, a):
    """The invalid argument that the facts of this state prove, or None."""
    F = st.F
    mid, ln, n = item_templates(I, st, name, a)
    if name != 'sync_write_bytes':
        ks = instances(st, mid)
        for i, x in enumerate(ks):
            for y in ks[:i]:
                if (F.prove_ge(x - y - 1) or F.prove_ge(y - x - 1)) and F.prove_eq(mid(x), mid(y)):
                    if all(F.prove_ge(n - 1 - z) for z in (x, y)): return 'motor named twice'
    if ln is not None:
        for x in instances(st, ln):
            if not F.prove_ge(n - 1 - x): continue
            if name == 'bulk_write' and F.prove_ge(ln(x) - 65536): return 'more than 65535 bytes'
            if name == 'sync_write_bytes' and F.proves(ne(ln(x) - a[2])): return 'data of another length'
    return None

def inst_uni(st, uni, picks, depth=0):
    """Instantiates the statements about completed loop iterations at the given indices (where they are in range)."""
    F = st.F
    for kv, K, conds in uni:
        for x in picks:
            if not (F.prove_ge(x) and F.prove_ge(F.norm(K) - x - 1)): continue
            cs = subst_deep(conds, lambda p: subst_atom(p, kv, x))
            flat = [c for c in cs if c[0] != 'all']
            for c in flat:
                fs = F.assume(c)
                if len(fs) == 1: F = st.F = fs[0]
            if depth < 2: inst_uni(st, [(c[1], c[2], c[3]) for c in cs if c[0] == 'all'], picks, depth + 1)
            F = st.F

def checked(I, st, name, a, what):
    """Does this (non-panicking) state imply that the arguments have no fault of the given kind?"""
    mid, ln, n = item_templates(I, st, name, a)
    s = st.copy()
    x = fresh('i', 0, MAXLEN)
    if what == 'dup':
        d = fresh('d', 0, MAXLEN)
        y = x + d + 1
        fs = s.F.assume(ge(n - 1 - y))
        if not fs: return True
        s.F = fs[0]
        inst_uni(s, s.uni, [x, y, d])
        return s.F.infeasible() or s.F.proves(ne(mid(x) - mid(y)))
    fs = s.F.assume(ge(n - 1 - x))
    if not fs: return True
    s.F = fs[0]
    inst_uni(s, s.uni, [x])
    if s.F.infeasible(): return True
    if what == 'long': return s.F.prove_ge(C(65535) - ln(x))
    return s.F.prove_eq(ln(x), a[2])

FAULTS = {'bulk_read_bytes': ('dup',), 'bulk_read_bytes_borrow': ('dup',), 'bulk_write': ('dup', 'long'), 'sync_write_bytes': ('len',)}
TEXT = {'dup': 'a list that names a motor twice is not transmitted', 'long': 'data of more than 65535 bytes is not transmitted', 'len': 'data of another length than announced is not transmitted'}
KIND = {'dup': 'motor named twice', 'long': 'more than 65535 bytes', 'len': 'data of another length'}
LISTS = tuple(FAULTS) + ('sync_write', 'sync_read', 'sync_read_bytes', 'sync_read_bytes_borrow')
def checked_few(st, I, name, a, what):
    """Bounded mode: the first items do not have the fault."""
    mid, ln, n = item_templates(I, st, name, a)
    def possible(F, *conds):
        fs = [F]
        for c in conds: fs = [g for f in fs for g in f.assume(c)]
        return any(not f.infeasible() for f in fs)
    for j in range(loops.REFUTE + 1):
        inr = ge(n - 1 - j)
        if what == 'dup':
            if any(possible(st.F, inr, eq(mid(C(i)) - mid(C(j)))) for i in range(j)): return False
        elif what == 'long':
            if possible(st.F, inr, ge(ln(C(j)) - 65536)): return False
        elif what == 'len':
            if possible(st.F, inr, ne(ln(C(j)) - a[2])): return False
    return True

def p25_one(S, path, prop='P25'):
    rep = Rep()
    r = [x for x in S.roots if x['path'] == path][0]
    R = S.run(r)
    rep.saw(R)
    I = R.I; nm = short(path); name = r['name']; a = R.args
    faults = FAULTS.get(name, ())
    seen = set()
    for p in I.panics:
        if p.st.F.infeasible() or p.kind != 'panic': continue
        sent = has(I, p.st.ev, 'write')
        rep.must(not sent, f'{nm}: no panic once something was transmitted', f'{p.msg} in {short(p.site)}', p.st)
        def why(s):
            f = fault(I, s, name, a) if faults else None
            if f: seen.add(f)
            return f is not None
        rep.must(lambda: every(I, p.st, why), f'{nm}: valid arguments never panic', f'{p.msg} in {short(p.site)}', p.st)
    if not I.panics and not R.error: rep.must(True, f'{nm}: valid arguments never panic')
    for what in faults:
        if R.error or I.stuck: continue
        if not rep.must(KIND[what] in seen, f'{nm}: rejects arguments with the fault "{KIND[what]}"', 'no such panic'): continue
        for st, kind, v in R.outs:
            if kind != 'ret' or not has(I, st.ev, 'write', 'discard'): continue
            key = f'{nm}: {TEXT[what]}'
            if loops.REFUTE:
                rep.must(lambda: every(I, st, lambda s: checked_few(s, I, name, a, what)), key, 'a list of a few items', st)
                continue
            if not st.uni: rep.ob += 1; rep.und[key] = 'no statement about all items was inferred'; continue
            rep.must(lambda: every(I, st, lambda s: checked(I, s, name, a, what)), key, 'the transmitting path does not imply it', st)
    return rep

def p25(S):
    return sorted({r['path'] for r in S.roots if is_client(r) and r['name'] in LISTS})

# ------------------------------------------------------------------ P20
def serial_hook(calls):
    """Operations of the serial2 crate: succeed or fail in every way; the calls are recorded as events."""
    def h(I, st, fr, c, a, ty, span, aty):
        if not c['path'].startswith('serial2::'): return None
        nm = c['path'].split('::')[-1]
        args = []
        for x in a[:]:
            try: args.append(st.F.norm(x) if isinstance(x, Poly) else vkey(I, st, x))
            except Unsup: args.append(None)
        k = st.n; st.n += 1
        t = I.P.types[ty]
        if t.get('k') == 'adt' and t['path'] == 'core::result::Result':
            if I.truth(st, ('bv', ('portok', nm, k, 0), True)):
                v = UNIT
                ok_ty = models.field_ty(I, ty, 0)
                ot = I.P.types[ok_ty]
                if not (ot.get('k') == 'tuple' and not ot['tys']): v = I.mk(ok_ty, ('serial2', nm, k))
                st.ev = st.ev + (('serial2', nm, tuple(args), 'ok', v),)
                return models.ret(st, models.ok(I, ty, v))
            e = Opq(models.field_ty(I, ty, 1), ('porterr', nm, k, 0))
            st.ev = st.ev + (('serial2', nm, tuple(args), 'err', e),)
            return models.ret(st, models.err(I, ty, e))
        return None
    return h

def find_bus(S, I, st, v):
    fs = []
    S.find_structs(I, st, v, {I.P.types[S.L.tid]['name']: S.L.path}, fs, set())
    if fs: return fs[0][1].fields
    # the type name of the bus may differ by its generic arguments
    out = []
    def walk(x, d=0):
        if d > 6 or out: return
        if isinstance(x, Agg):
            t = adt(I, x)
            if t is not None and t['path'] == S.L.path: out.append(x.fields); return
            for f in x.fields: walk(f, d + 1)
        elif isinstance(x, Ptr) and x.cell in st.cells: walk(I.read(st, (x.cell, x.path)), d + 1)
    walk(v)
    return out[0] if out else None

def holder(r): return r['self_ty'].split('<')[0] in ('client::Client', 'device::Device') and not r['trait']
def p20(S): return sorted({r['path'] for r in S.roots if r['pub'] and r['reachable'] and not (r['trait'] and 'serial2' in r['path'])})
def p20_one(S, path, prop='P20'):
    rep = Rep()
    r = [x for x in S.roots if x['path'] == path][0]
    name = r['name']; nm = short(path); B = S.L.baud
    hold = holder(r)
    opens = hold and name in ('open', 'open_with_buffers')
    R = S.run(r, hooks={'external': serial_hook(None)} if opens else None)
    I = R.I; a = R.args
    if R.error or I.stuck:
        if hold or 'bus' in nm: rep.saw(R)
    else: rep.saw(R)
    before = bus_fields(S, I, R.entry, a) if not R.error and a else None
    n = 0
    for st, kind, v in R.outs:
        if kind != 'ret': continue
        n += 1
        res = Res(I, v)
        evs = [e for e, s in events(I, st.ev)]
        sets = [e for e in evs if e[0] == 'baud_set']; gets = [e for e in evs if e[0] == 'baud_get']
        if hold and name == 'set_baud_rate':
            good = rep.must(len(sets) == 1, f'{nm}: the port is reconfigured once', f'{len(sets)} times', st)
            if not good: continue
            rep.must(lambda: st.F.prove_eq(sets[0][1], a[1]), f'{nm}: passes on exactly the requested rate', show_val(sets[0][1]), st)
            after = bus_fields(S, I, st, a)
            if sets[0][2] == 'ok':
                rep.must(lambda: st.F.prove_eq(after[B], a[1]), f'{nm}: reports the new rate when the port accepted it', show_val(after[B]), st)
                rep.must(res.ok is True, f'{nm}: success is returned', str(v)[:160], st)
            else:
                rep.must(lambda: st.F.prove_eq(after[B], before[B]), f'{nm}: the old rate stays in effect after an error', show_val(after[B]), st)
                rep.must(res.ok is False and is_port_err(res.leaf, 'setbaud'), f'{nm}: the error of the port is returned', str(v)[:160], st)
            continue
        if hold and name == 'baud_rate':
            rep.must(lambda: isinstance(v, Poly) and st.F.prove_eq(v, before[B]), f'{nm}: reports the rate that timeouts are computed from', show_val(v), st)
        if hold and name in ('new', 'with_buffers'):
            rep.must(len(gets) == 1 and not sets, f'{nm}: the rate is read from the port', f'{len(gets)} times', st)
            if len(gets) != 1: continue
            if gets[0][1] == 'err': rep.must(res.ok is False and is_port_err(res.leaf, 'baud'), f'{nm}: an error reading the rate is returned', str(v)[:160], st)
            else:
                fs = find_bus(S, I, st, v)
                rep.must(lambda: res.ok is True and fs is not None and st.F.prove_eq(fs[B], gets[0][1]), f'{nm}: starts with the rate of the port', str(fs and fs[B])[:160], st)
            continue
        if opens:
            os_ = [e for e in evs if e[0] == 'serial2' and e[1] == 'open']
            rep.must(len(os_) == 1, f'{nm}: opens the port once', f'{len(os_)} times', st)
            if len(os_) != 1: continue
            o = os_[0]
            rep.must(lambda: isinstance(o[2][-1], Poly) and st.F.prove_eq(o[2][-1], rate_arg(S, R)), f'{nm}: the port is opened with the given rate', str(o[2])[:160], st)
            if o[3] == 'err': rep.must(res.ok is False and res.leaf == o[4], f'{nm}: an error opening the port is returned', str(v)[:160], st)
            else:
                fs = find_bus(S, I, st, v)
                rep.must(lambda: fs is not None and st.F.prove_eq(fs[B], rate_arg(S, R) if not gets else gets[0][1]), f'{nm}: starts with the rate the port was opened with', str(fs and fs[B])[:160], st)
            continue
        if r['pub'] and r['reachable']:
            rep.must(not sets, f'{nm}: does not reconfigure the port', '', st)
            if before is not None:
                after = bus_fields(S, I, st, a)
                if after is not None: rep.must(lambda: st.F.prove_eq(after[B], before[B]), f'{nm}: does not change the reported rate', show_val(after[B]), st)
    if hold and name in ('set_baud_rate', 'baud_rate', 'new', 'with_buffers') + (('open', 'open_with_buffers') if opens else ()) and not R.error and not I.stuck:
        rep.must(n > 0, f'{nm}: returns')
    return rep
def rate_arg(S, R):
    for x, t in zip(reversed(R.args), reversed(R.body['locals'][1:R.body['nargs'] + 1])):
        t = S.P.types[t]
        if t.get('k') == 'int' and t['name'] == 'u32': return x
    raise Unsup('baud rate argument')

# ------------------------------------------------------------------ P08: the buffers given at construction
def ctors(S): return sorted({r['path'] for r in S.roots if holder(r) and r['name'] in ('with_buffers', 'open_with_buffers')})
def ctor_one(S, path, prop='P08'):
    """Constructors use the read and the write buffer for what they were given."""
    rep = Rep()
    r = [x for x in S.roots if x['path'] == path][0]; nm = short(path)
    R = S.run(r, hooks={'external': serial_hook(None)} if r['name'] == 'open_with_buffers' else None); rep.saw(R)
    I = R.I
    loc = R.body['locals'][1:R.body['nargs'] + 1]
    byty = {}
    for x, t in zip(R.args, loc): byty.setdefault(t, []).append(x)
    pairs = [v for v in byty.values() if len(v) == 2]
    if len(pairs) != 1: raise Missing(f'{nm}: read and write buffer arguments')
    rb, wb = pairs[0]
    for st, kind, v in R.outs:
        if kind != 'ret' or st.F.infeasible() or Res(I, v).ok is False: continue
        fs = find_bus(S, I, st, v)
        if fs is None: raise Unsup('no bus in the result')
        for what, b, x in (('read', S.L.rbuf, rb), ('write', S.L.wbuf, wb)):
            k = buf_key(fs[b]); w = buf_key(x)
            if k is None or w is None: raise Unsup('representation of the buffers')
            rep.must(k == w, f'{nm}: the {what} buffer is the one given as {what} buffer', f'{k}', st)
    rep.some(R, any(k == 'ret' for _, k, _ in R.outs), f'{nm}: returns')
    return rep
def buf_key(x):
    if isinstance(x, (BufV, Opq)): return x.key
    return None

TASKS = {'P08': (ctors, ctor_one), 'P05': (recv_roots, p05_one), 'P25': (p25, p25_one), 'P20': (p20, p20_one)}
