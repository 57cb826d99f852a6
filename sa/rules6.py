"""The bundled serial port (P28): deadlines, timeouts, pass-through of the serial2 operations."""
from spec import *
import models
from models import ret, some, none, ok, err, vkey, deref

INSTANT = 'std::time::Instant'
IMAX = 1 << 90

def is_impl(r): return 'serial2::SerialPort' in r['self_ty'].replace('serial_port::', '') and r['trait'].rstrip('>').split('::')[-1] == 'SerialPort'
FUNCS = ('baud_rate', 'set_baud_rate', 'discard_input_buffer', 'read', 'write_all', 'make_deadline', 'is_timeout_error')

def instant(v):
    """Point in time of an Instant value, in nanoseconds."""
    if isinstance(v, Opq):
        if isinstance(v.key, tuple) and v.key and v.key[0] == 'inst': return v.key[1]
        return sym(('time', v.key), 0, IMAX)
    raise Unsup('representation of an instant')

def hook(I, st, fr, c, a, ty, span, aty):
    """Time, I/O errors and the operations of the serial2 crate."""
    path, orig = c['path'], c['orig']
    F = st.F
    nm = path.rsplit('::', 1)[1]
    def inst(p): return Opq(ty, ('inst', F.norm(p)))
    def dv(x): return deref(I, st, x) if isinstance(x, Ptr) else x
    if path.startswith(INSTANT + '::') or ('Instant' in path and path.startswith('<std::time::Instant as ')) or path.startswith('<' + INSTANT):
        if nm == 'now':
            k = st.n; st.n += 1
            t = sym(('now', k), 0, IMAX)
            st.ev = st.ev + (('now', t),)
            return ret(st, Opq(ty, ('inst', t)))
        if nm == 'elapsed':
            k = st.n; st.n += 1
            t = sym(('now', k), 0, IMAX); st.ev = st.ev + (('now', t),)
            d = t - instant(dv(a[0]))
            return ret(st, Dur(d if I.truth(st, ge(d)) else ZERO))
        if nm in ('checked_duration_since', 'saturating_duration_since', 'duration_since', 'sub'):
            y = dv(a[1])
            if isinstance(y, Dur): return ret(st, inst(instant(dv(a[0])) - y.nanos))
            d = F.norm(instant(dv(a[0])) - instant(y))
            if I.truth(st, ge(d)): return ret(st, some(I, ty, Dur(d)) if nm.startswith('checked') else Dur(d))
            return ret(st, none(I, ty) if nm.startswith('checked') else Dur(ZERO))
        if nm == 'add': return ret(st, inst(instant(dv(a[0])) + dv(a[1]).nanos))
        if nm == 'checked_add':
            p = F.norm(instant(dv(a[0])) + dv(a[1]).nanos)
            if models.decide_fork(I, st, ('instant fits', p)): return ret(st, some(I, ty, Opq(models.field_ty(I, ty, 1), ('inst', p))))
            return ret(st, none(I, ty))
        if nm == 'add_assign':
            v = dv(a[0]); I.write(st, (a[0].cell, a[0].path), Opq(v.ty, ('inst', F.norm(instant(v) + dv(a[1]).nanos))))
            return ret(st, UNIT)
        if nm in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'cmp', 'partial_cmp', 'max', 'min'):
            d = F.norm(instant(dv(a[0])) - instant(dv(a[1])))
            if nm == 'lt': return ret(st, ge(-d - 1))
            if nm == 'le': return ret(st, ge(-d))
            if nm == 'gt': return ret(st, ge(d - 1))
            if nm == 'ge': return ret(st, ge(d))
            if nm == 'eq': return ret(st, eq(d))
            if nm == 'ne': return ret(st, c_not(eq(d)))
            if nm in ('max', 'min'): return ret(st, dv(a[0]) if I.truth(st, ge(d) if nm == 'max' else ge(-d)) else dv(a[1]))
            if nm in ('cmp', 'partial_cmp'):
                ot = ty if nm == 'cmp' else models.field_ty(I, ty, 1)
                i = 0 if I.truth(st, ge(-d - 1)) else 1 if I.truth(st, eq(d)) else 2
                o = Agg(I.P.types[ot]['name'], i, ())
                return ret(st, o if nm == 'cmp' else some(I, ty, o))
        if nm == 'clone': return ret(st, dv(a[0]))
        raise Unsup('operation on instants ' + nm)
    if path == 'core::io::error::Error::kind' or path == 'std::io::Error::kind' or (nm == 'kind' and 'io::' in path):
        v = dv(a[0])
        if isinstance(v, Opq) and v.key and v.key[0] == 'iofrom': return ret(st, v.key[1])
        return ret(st, Opq(ty, ('kind', vkey(I, st, v))))
    t = I.P.types[ty]
    if 'ErrorKind' in path or any(I.P.types[x].get('path', '').endswith('io::error::ErrorKind') for x in aty) or ('io::' in path and nm in ('eq', 'ne', 'from', 'into', 'new', 'other')):
        if nm in ('eq', 'ne') and len(a) == 2:
            x, y = dv(a[0]), dv(a[1])
            i = x.variant if isinstance(x, Agg) else I.variant_of(st, x)
            j = y.variant if isinstance(y, Agg) else I.variant_of(st, y)
            return ret(st, (i == j) is (nm == 'eq'))
        if nm in ('from', 'into', 'new') and t.get('path', '').endswith('io::error::Error'):
            x = a[0]
            if isinstance(x, Opq): x = Agg(I.P.types[x.ty]['name'], I.variant_of(st, x), ())
            return ret(st, Opq(ty, ('iofrom', x)))
    if path.startswith('serial2::'):
        args = []
        for x in a:
            if isinstance(x, (Poly, Dur)): args.append(x)
            elif isinstance(x, Slice): args.append((x.cell, x.path, F.norm(x.off), F.norm(x.len), models.content(I, st, x)))
            else:
                try: args.append(vkey(I, st, x))
                except Unsup: args.append(None)
        k = st.n; st.n += 1
        if t.get('k') == 'adt' and t['path'] == 'core::result::Result':
            if I.truth(st, ('bv', ('portok', nm, k, 0), True)):
                ok_ty = models.field_ty(I, ty, 0)
                ot = I.P.types[ok_ty]
                v = UNIT if ot.get('k') == 'tuple' and not ot['tys'] else I.mk(ok_ty, ('serial2', nm, k))
                st.ev = st.ev + (('serial2', nm, tuple(args), 'ok', v),)
                return ret(st, ok(I, ty, v))
            e = Opq(models.field_ty(I, ty, 1), ('porterr', nm, k, 0))
            st.ev = st.ev + (('serial2', nm, tuple(args), 'err', e),)
            return ret(st, err(I, ty, e))
    return None

def p28(S): return list(FUNCS)

def p28_one(S, name, prop):
    rep = Rep()
    rs = [r for r in S.roots if is_impl(r) and r['name'] == name]
    if not rep.must(len(rs) == 1, f'serial port: {name}() exists', ''): return rep
    R = S.run(rs[0], hooks={'external': hook}); rep.saw(R)
    I = R.I
    nm = f'serial port: {name}()'
    a = R.args
    if name != 'make_deadline':       # like Instant + Duration, it may refuse a timeout beyond the range of the clock
        for p in I.panics: rep.must(p.st.F.infeasible(), f'{nm}: does not panic', p.msg, p.st)
    n = 0
    self_key = None
    if a and isinstance(a[0], Ptr): self_key = ('ref', vkey(I, R.entry, I.read(R.entry, (a[0].cell, a[0].path))))
    for st, k, v in R.outs:
        if k != 'ret' or st.F.infeasible(): continue
        n += 1
        r = Res(I, v)
        evs = [e for e, s in events(I, st.ev)]
        ops = [e for e in evs if e[0] == 'serial2']
        nows = [e for e in evs if e[0] == 'now']
        for o in ops:
            rep.must(o[2] and (o[2][0] == self_key or o[1] in ('set_baud_rate', 'get_baud_rate')), f'{nm}: operates on the port itself', str(o[2][:1]), st)
        fails = [o for o in ops if o[3] == 'err']
        if fails:
            rep.must(len(fails) == 1 and ops[-1] is fails[0] and r.ok is False and v.fields[0] == fails[0][4], f'{nm}: the first error of the port is returned', str(v)[:200], st)
        if name == 'read': read_rule(rep, nm, I, st, v, r, ops, nows, a, R)
        elif name == 'write_all':
            w = [o for o in ops if o[1] == 'write_all']
            rep.must(len(ops) == 1 and len(w) == 1, f'{nm}: writes once and does nothing else', str([o[1] for o in ops]), st)
            if len(w) == 1:
                rep.must(lambda: every(I, st, lambda s: same_seq(I, s, w[0][2][1][4], models.content(I, R.entry, a[1]))), f'{nm}: writes exactly the given bytes', '', st)
                if w[0][3] == 'ok': rep.must(r.ok is True, f'{nm}: reports success of the port', str(v)[:200], st)
        elif name == 'discard_input_buffer':
            rep.must([o[1] for o in ops] == ['discard_input_buffer'], f'{nm}: discards once and does nothing else', str([o[1] for o in ops]), st)
            if not fails: rep.must(r.ok is True, f'{nm}: reports success of the port', str(v)[:200], st)
        elif name == 'make_deadline':
            rep.must(not ops, f'{nm}: does not use the port', '', st)
            rep.must(len(nows) == 1 and st.F.prove_eq(instant(v), nows[-1][1] + a[1].nanos) if nows else False, f'{nm}: the deadline is the current time plus the timeout', str(v)[:200], st)
        elif name == 'is_timeout_error':
            def good(s):
                e = deref(I, s, a[0])
                kt = next(i for i, t in enumerate(I.P.types) if t.get('path', '').endswith('io::error::ErrorKind'))
                kv = Opq(kt, ('kind', vkey(I, s, e)))
                i = I.variant_of(s, kv)
                is_to = I.P.types[kt]['variants'][i]['name'] == 'TimedOut'
                d = v if isinstance(v, bool) else s.F.decide(v)
                if d is None: raise Split([v, c_not(v)])
                return d == is_to
            rep.must(lambda: every(I, st, good), f'{nm}: exactly the error kind TimedOut is a timeout', str(st.res)[:200], st)
        elif name == 'baud_rate':
            g = [o for o in ops if o[1] == 'get_baud_rate']
            if not fails:
                rep.must([o[1] for o in ops] == ['get_configuration', 'get_baud_rate'] and r.ok is True and g[0][4] == r.val, f'{nm}: reports the rate of the current configuration', str(v)[:200], st)
        elif name == 'set_baud_rate':
            names = [o[1] for o in ops]
            rep.must(names == ['get_configuration', 'set_baud_rate', 'set_configuration'][:len(names)], f'{nm}: changes only the rate of the current configuration', str(names), st)
            sb = [o for o in ops if o[1] == 'set_baud_rate']
            if sb: rep.must(lambda: st.F.prove_eq(sb[0][2][1], a[1]), f'{nm}: passes on the requested rate', str(sb[0][2])[:200], st)
            if not fails: rep.must(r.ok is True and len(names) == 3, f'{nm}: applies the configuration', str(names), st)
    rep.some(R, n > 0, f'{nm}: returns')
    return rep

def read_rule(rep, nm, I, st, v, r, ops, nows, a, R):
    F = st.F
    dl = instant(deref(I, R.entry, a[2]))
    names = [o[1] for o in ops]
    rep.must(len(nows) >= 1, f'{nm}: looks at the clock', '', st)
    if not nows: return
    now = nows[-1][1]
    left = F.norm(dl - now)
    sets = [o for o in ops if o[1] == 'set_read_timeout']; reads = [o for o in ops if o[1] == 'read']
    if not F.prove_ge(left):
        # the deadline has or may have passed
        rep.must(not reads, f'{nm}: does not read after the deadline', F.show()[:200], st)
    if not ops:
        e = v.fields[0] if r.ok is False else None
        good = isinstance(e, Opq) and e.key and e.key[0] == 'iofrom' and isinstance(e.key[1], Agg) and vname(I, e.key[1])[1] == 'TimedOut'
        rep.must(good, f'{nm}: an expired deadline gives a timeout error', str(v)[:200], st)
        rep.must(F.prove_ge(-left), f'{nm}: only an expired deadline is refused', F.show()[:200], st)
        return
    rep.must(names in (['set_read_timeout'], ['set_read_timeout', 'read']), f'{nm}: sets the timeout and then reads once', str(names), st)
    if sets:
        d = sets[0][2][1]
        rep.must(lambda: isinstance(d, Dur) and F.prove_eq(d.nanos, left), f'{nm}: the timeout is the time left until the deadline', str(d)[:200], st)
    if reads:
        q = reads[0][2][1]
        sl = a[1]
        rep.must(lambda: q[0] == sl.cell and q[1] == sl.path and F.prove_eq(q[2], sl.off) and F.prove_eq(q[3], sl.len), f'{nm}: reads into the given buffer', str(q)[:200], st)
        if reads[0][3] == 'ok': rep.must(r.ok is True and r.val == reads[0][4], f'{nm}: reports the number of bytes the port reports', str(v)[:200], st)

TASKS = {'P28': (p28, p28_one)}
