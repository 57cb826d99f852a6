"""The receive function (P04, P06, P19, P24): analysed with the read buffer as a window onto the stream of received bytes."""
from spec import *
from session import *
from client import *
import loops
import models
import rules3
from rules3 import fact_atoms

PR4 = ('P04', 'P06', 'P19', 'P24')
STREAM = ('sym', ('stream',), None)
HEADER = 7

def roles(S):
    """(fill level, consumed) among the usize fields of the bus: consumed <= fill level is an inferred invariant."""
    L = S.L
    if len(L.usize) != 2: raise Missing('two indices into the read buffer')
    x, y = L.usize
    names = {c.name for c in S.cands if c.path == L.path}
    if f'{L.names[x]} <= {L.names[y]}' in names and f'{L.names[y]} <= {L.names[x]}' not in names: return y, x
    if f'{L.names[y]} <= {L.names[x]}' in names and f'{L.names[x]} <= {L.names[y]}' not in names: return x, y
    if S.roles is not None and set(S.roles) == {L.names[x], L.names[y]}: return (x, y) if L.names[x] == S.roles[0] else (y, x)
    raise Unsup('roles of the read buffer indices')

def prepare_window(S, rl, used):
    """The bytes that are held but not consumed are the last ones that were received."""
    L = S.L
    def prep(I, st, args):
        loc = bus_loc(S, I, st, args[0])
        a = I.read(st, loc)
        if isinstance(a, Opq): a = I.expand(st, a)
        fs = list(a.fields)
        v = fs[L.rbuf]
        q = v.seq if isinstance(v, BufV) else I.step_read(st, v, ('buf',))
        st.spos = sym(('spos0',), 0, MAXLEN)
        n = fs[rl] - fs[used]
        # the indices are within the buffer in this order (an inferred invariant, or that of the default configuration)
        f = st.F.assume(c_and(c_and(le(n, st.spos), ge(n)), le(fs[rl], q.len))); st.F = f[0]
        q = Seq('u8', q.len, q.base, q.log + (('cp', fs[used], n, Seq('u8', C(MAXLEN * 4), STREAM, ()), st.spos - n),))
        fs[L.rbuf] = BufV(v.ty, v.key, q)
        I.write(st, loc, Agg(a.ty, a.variant, tuple(fs)))
    return prep

def position(st, fs, rl, used):
    """Position in the stream up to which everything is consumed."""
    return st.F.norm(st.spos - fs[rl] + fs[used])

def headers(st, I):
    """Results of the header search over parts of the stream: (start, length, result). Bytes of known value are recognised by
    the value of the stream at their position."""
    out = []
    for a in fact_atoms(st):
        if a.kind == 'sym' and isinstance(a.args[0], tuple) and a.args[0][:1] == ('find_header',):
            segs = tuple(norm_seg(st, s) for s in a.args[0][1])
            if not all(s[0] == 'v' or (s[0] == 'c' and s[1] == STREAM) for s in segs): continue
            k = next((i for i, s in enumerate(segs) if s[0] == 'c'), None)
            if k is None: continue
            start = pos = segs[k][2] - sum(len(s[1]) for s in segs[:k])
            good = True
            for s in segs:
                if s[0] == 'c':
                    good = good and st.F.prove_eq(s[2], pos); pos = pos + s[3]
                else:
                    for v in s[1]:
                        try: good = good and isinstance(v, Poly) and st.F.prove_eq(s8(st, I, pos), v)
                        except (Unsup, Split): good = False
                        pos = pos + 1
                if not good: break
            if good: out.append((st.F.norm(start), st.F.norm(pos - start), st.F.norm(A(a))))
    return out

def skips(st, I, x, y, depth=0):
    """No header begins between the stream positions x and y (according to the header searches that were made)."""
    F = st.F
    if F.prove_eq(x, y): return True
    if depth > 3: return False
    for off, n, g in headers(st, I):
        if F.prove_eq(off, x):
            if F.prove_ge(y - x) and F.prove_ge(x + g - y): return True
            if not F.prove_eq(g, ZERO) and F.prove_ge(y - x - g) and skips(st, I, x + g, y, depth + 1): return True
    return False

def s8(st, I, i): return el(I, st, STREAM, i)
def word(st, I, i): return s8(st, I, i) + s8(st, I, i + 1) * 256

def is_header(I, st, g):
    F = st.F
    return all(F.prove_eq(s8(st, I, g + i), C(PREFIX[i])) for i in range(4))

def window_ok(S, I, st, fs, rl, used):
    """The unconsumed part of the read buffer is exactly the end of the stream."""
    L = S.L
    v = fs[L.rbuf]
    if not isinstance(v, BufV): raise Unsup('read buffer')
    n = fs[rl] - fs[used]
    if not (st.F.prove_ge(fs[used]) and st.F.prove_ge(n) and st.F.prove_ge(v.seq.len - fs[rl])): return False
    got = I.seq_extract(st, v.seq, fs[used], st.F.norm(n))
    want = (('c', STREAM, st.F.norm(st.spos - n), st.F.norm(n)),)
    return same_seq(I, st, got, want)

def recv_rules(S):
    reps = {p: Rep() for p in PR4}
    P, L = S.P, S.L
    r = anchor(P, 'recv')
    nm = short(r['path'])
    rl, used = roles(S)
    R = S.run(r, recv=False, prepare=prepare_window(S, rl, used), timeout=200)
    I = R.I
    for p in reps.values(): p.saw(R)
    if R.error: return reps
    a = R.args
    dk = vkey(I, R.entry, a[1])
    same_dl = lambda x: x == dk or x == ('ref', dk)
    fs0 = bus_fields(S, I, R.entry, a)
    p0 = position(R.entry, fs0, rl, used)
    blen = buflen(I, fs0[L.rbuf])
    # ---------------------------------------------------------------- loops
    mine = [l for l in I.loopinfo if any(any(e[0] == 'read' for e, s in events(I, b.ev[len(l['h'].ev):])) for b in l['backs'])]
    heads = []
    for l in mine:
        h = l['h']
        try: fh = bus_fields(S, I, h, a)
        except (Unsup, Split): fh = None
        if fh is None: continue
        ph = position(h, fh, rl, used)
        heads.append((l, ph))
        fe = bus_fields(S, I, l['entry'], a)
        reps['P06'].must(lambda: skips(l['entry'], I, p0, position(l['entry'], fe, rl, used)), f'{nm}: nothing but garbage is consumed before the loop', '', l['entry'])
        for b in l['backs']:
            if b.F.infeasible(): continue
            fb = bus_fields(S, I, b, a)
            pb = position(b, fb, rl, used)
            evs = [e for e, s in events(I, b.ev[len(h.ev):])]
            reads = [e for e in evs if e[0] == 'read']
            reps['P06'].must(lambda: any(b.F.prove_ge(e[1] - 1) for e in reads) or b.F.prove_ge(pb - ph - 1), f'{nm}: every round of the loop reads from the port into free space or consumes something', f'{len(reads)} reads', b)
            reps['P06'].must(lambda: every(I, b, lambda s: skips(s, I, ph, pb)), f'{nm}: a round of the loop only consumes bytes that do not start a header', f'{pb - ph}', b)
            reps['P06'].must(lambda: every(I, b, lambda s: window_ok(S, I, s, fb, rl, used)), f'{nm}: received bytes are kept in order', '', b)
            for e in reads:
                reps['P19'].must(same_dl(e[2]), f'{nm}: every read uses the deadline of the wait', str(e[2])[:100], b)
            reps['P24'].must(all(e[3] == 'ok' for e in reads), f'{nm}: no further read after a failed one', '', b)
            reps['P19'].must(not any(e[0] == 'deadline' for e in evs), f'{nm}: no new deadline is made', '', b)
    if not loops.REFUTE: reps['P06'].some(R, bool(heads), f'{nm}: reads in a loop until a message is complete', 'no loop with a read')
    # ---------------------------------------------------------------- exits
    okays = 0
    for st, kind, v in R.outs:
        if kind != 'ret': continue
        fs = bus_fields(S, I, st, a)
        res = Res(I, v)
        evs = [e for e, s in events(I, st.ev)]
        top = [e for e in st.ev if e[0] == 'read']
        fail = [e for e in evs if e[0] == 'read' and e[3] != 'ok']
        for e in evs:
            if e[0] == 'read': reps['P19'].must(same_dl(e[2]), f'{nm}: every read uses the deadline of the wait', str(e[2])[:100], st)
        reps['P19'].must(not any(e[0] == 'deadline' for e in evs), f'{nm}: no new deadline is made', '', st)
        reps['P24'].must(not any(e[0] in ('write', 'discard', 'baud_set') for e in evs), f'{nm}: only reads', '', st)
        p1 = position(st, fs, rl, used)
        reps['P06'].must(lambda: every(I, st, lambda s: window_ok(S, I, s, fs, rl, used)), f'{nm}: received bytes that are not consumed are kept for the next call', '', st)
        entries = [p0] + [ph for l, ph in heads if any(o is st or o[0] is st for o in l['exits'])] + [ph for l, ph in heads]
        reached = lambda s, y: any(skips(s, I, x, y) for x in entries)
        if fail:
            reps['P24'].must(len(fail) == 1 and top and top[-1] is fail[0] and st.ev[-1] is fail[0], f'{nm}: no further read after a failed one', '', st)
            reps['P24'].must(res.ok is False and 'Io' in res.chain and is_port_err(res.leaf, 'read'), f'{nm}: the error of the port is returned', str(v)[-160:], st)
            reps['P06'].must(lambda: every(I, st, lambda s: reached(s, p1)), f'{nm}: an incomplete message is kept when the port fails or times out', show_val(p1), st)
            continue
        if res.ok is False and st.F.prove_ge(C(HEADER + 2) - blen) and not evs:
            reps['P06'].must(lambda: st.F.prove_eq(p1, p0), f'{nm}: a too small buffer consumes nothing', '', st)
            continue
        # everything else is about a message header at a position g
        gs = []
        for off, n, g in headers(st, I):
            x = st.F.norm(off + g)
            if not any(x == y for y in gs): gs.append(x)
        gs = [g for g in gs + [x for x in entries if x not in gs]]
        def at(s, f): return any(reached(s, g) and is_header(I, s, g) and f(s, g) for g in gs)
        def incons(s): return s.F.infeasible()
        if res.ok:
            okays += 1
            why = []
            def intact(s, g):
                n = word(s, I, g + 5)
                if not s.F.prove_ge(n - 3): why.append('length'); return False
                if not s.F.prove_ge(s.spos - g - HEADER - n): why.append('incomplete'); return False
                return True
            def consumed(s, g): return intact(s, g) and s.F.prove_eq(p1, g + HEADER + word(s, I, g + 5))
            def crc_good(s, g):
                n = word(s, I, g + 5)
                c = crc_at(s, I, g, n)
                return intact(s, g) and s.F.prove_eq(c, word(s, I, g + HEADER + n - 2))
            def content_ok(s, g):
                n = word(s, I, g + 5)
                if not intact(s, g): return False
                body = (('c', STREAM, s.F.norm(g + HEADER), s.F.norm(n - 2)),)
                k = sym(('unstufflen', body), 0, MAXLEN)
                got = content(I, s, pkt_slice(I, res.val))
                # the packet ID and the unstuffed body; the length field is not visible
                want = (('c', STREAM, s.F.norm(g), C(HEADER)), ('c', ('fn', ('unstuff', body)), ZERO, k))
                return same_seq(I, s, got, want, why)
            reps['P06'].must(lambda: every(I, st, lambda s: at(s, consumed)), f'{nm}: a delivered message is consumed exactly', f'{why[-3:]}', st)
            reps['P04'].must(lambda: every(I, st, lambda s: at(s, intact)), f'{nm}: a delivered message starts with a header prefix and is complete', f'{why[-3:]}', st)
            reps['P04'].must(lambda: every(I, st, lambda s: at(s, crc_good)), f'{nm}: a delivered message has a matching checksum over everything before it', '', st)
            reps['P04'].must(lambda: every(I, st, lambda s: at(s, content_ok)), f'{nm}: a delivered message has exactly the content that was received, without stuffing and checksum', '; '.join(why[-2:]), st)
            # what the rest of the analysis assumes about packets
            def inv(s):
                sl = pkt_slice(I, res.val)
                if not s.F.prove_ge(sl.len - 8): return False
                b = models.get(I, s, sl, C(7))
                return s.F.prove_ge(sl.len - 9) or s.F.proves(ne(b - 0x55))
            reps['P04'].must(lambda: every(I, st, inv), f'{nm}: a delivered message has an instruction and a status packet an error field', '', st)
            continue
        if res.err('InvalidMessage', 'InvalidChecksum') or 'InvalidChecksum' in res.chain:
            lf = res.leaf
            def f(s, g):
                n = word(s, I, g + 5)
                m = word(s, I, g + HEADER + n - 2)
                if not (s.F.prove_ge(n - 3) and s.F.prove_ge(s.spos - g - HEADER - n)): return False
                c = crc_at(s, I, g, n)
                return s.F.prove_eq(field(I, lf, 'message'), m) and s.F.prove_eq(field(I, lf, 'computed'), c) and s.F.decide(eq(m - c)) is False
            reps['P04'].must(lambda: every(I, st, lambda s: at(s, f)), f'{nm}: a checksum error carries the received and the computed checksum, which differ', str(lf)[-200:], st)
            reps['P06'].must(lambda: every(I, st, lambda s: at(s, lambda s, g: s.F.prove_eq(p1, g + HEADER + word(s, I, g + 5)))), f'{nm}: a message with a bad checksum is consumed exactly', show_val(p1), st)
            continue
        # messages with an impossible length, or without a required field
        def refused(s, g):
            n = word(s, I, g + 5)
            if s.F.prove_ge(C(2) - n) or s.F.prove_ge(n + HEADER - blen - 1):
                return s.F.prove_eq(p1, g + HEADER)
            return False
        def dropped(s, g):
            n = word(s, I, g + 5)
            body = (('c', STREAM, s.F.norm(g + HEADER), s.F.norm(n - 2)),)
            k = sym(('unstufflen', body), 0, MAXLEN)
            if not (s.F.prove_ge(n - 3) and s.F.prove_ge(s.spos - g - HEADER - n) and s.F.prove_eq(p1, g + HEADER + n)): return False
            # a status packet without error field, with a good checksum
            b = el(I, s, ('fn', ('unstuff', body)), ZERO)
            return s.F.prove_eq(crc_at(s, I, g, n), word(s, I, g + HEADER + n - 2)) and s.F.prove_eq(b, C(0x55)) and s.F.prove_ge(C(1) - k)
        reps['P06'].must(lambda: every(I, st, lambda s: at(s, lambda s, g: refused(s, g) or dropped(s, g))), f'{nm}: an impossible length only loses the header, and other messages are consumed exactly', f'{res.chain} {show_val(st.F.norm(p1))}', st)
    for p in ('P04', 'P06'): reps[p].some(R, okays > 0, f'{nm}: delivers messages', 'no path returns a packet')
    return reps

def crc_at(s, I, g, n):
    want = (('c', STREAM, s.F.norm(g), s.F.norm(n + HEADER - 2)),)
    for a in fact_atoms(s):
        k = a.args[0] if a.kind == 'sym' else None
        # the same bytes, some of them as known values
        if isinstance(k, tuple) and k[:2] == ('crc', ZERO) and len(k[2]) > 1 and k[2][0][0] == 'v' and same_seq(I, s, tuple(norm_seg(s, x) for x in k[2]), want): return A(a)
    return sym(('crc', ZERO, want), 0, 65535)

def run(S, t, prop):
    try: return recv_rules(S)[prop]
    except (Unsup, Split) as e:
        rep = Rep(); rep.ob += 1; rep.und['receive function: analysis incomplete'] = str(e)[:200]
        return rep
TASKS = {p: (lambda S: ['recv'], run) for p in PR4}
