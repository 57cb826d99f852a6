"""The kernel functions whose effect the other analyses take from sa/contracts.py: their bodies are decided here."""
from spec import *
from session import *
import models, rules3

def transfer_time(S, item, prop):
    """P19: the transfer time is exactly the time of 10 bits per byte, rounded up to nanoseconds."""
    rep = Rep()
    r = anchor(S.P, 'transfer_time')
    nm = short(r['path'])
    R = S.run(r, timeout=400); I = R.I
    rep.saw(R)
    if R.error: return rep
    n, b = R.args
    for st, msg in panics(I): rep.must(False, f'{nm}: does not panic', msg, st)
    rets = 0
    for st, k, v in R.outs:
        if k != 'ret': continue
        rets += 1
        d = nanos(v)
        rep.must(lambda: st.F.prove_ge(d * b - n * 10 * 10**9), f'{nm}: not shorter than 10 bits per byte', show_val(d), st)
        rep.must(lambda: st.F.prove_ge(n * 10 * 10**9 - (d - 1) * b - 1), f'{nm}: at most one nanosecond longer than 10 bits per byte', show_val(d), st)
    rep.some(R, rets > 0, f'{nm}: returns', '')
    return rep

def panics(I):
    return [(p.st, f'{short(p.site)}: {p.msg}') for p in I.panics if not p.st.F.infeasible()]
def nanos(v):
    if hasattr(v, 'nanos'): return v.nanos
    raise Unsup('duration')


# ------------------------------------------------------------------ loops and the data they read
class Data:
    """The bytes of a slice argument as atoms."""
    def __init__(self, I, st, sl):
        self.I = I; self.sl = sl
        segs = content(I, st, sl)
        if len(segs) != 1 or segs[0][0] != 'c': raise Unsup('slice argument')
        self.base = segs[0][1]; self.off = segs[0][2]; self.len = segs[0][3]
        a = el(I, st, self.base, sym(('probe',), 0, MAXLEN)).single()
        self.key = a.args[0][:2]
    def at(self, st, i): return el(self.I, st, self.base, self.off + i)
    def pos(self, a):
        """Position of a byte of the data, None for other atoms."""
        if a.kind == 'sym' and isinstance(a.args[0], tuple) and len(a.args[0]) == 3 and a.args[0][:2] == self.key: return a.args[0][2] - self.off
        return None

import loops as _loops
def head_vars(l):
    """Numeric positions that change in a loop: (position, value at the head, entry value, values at the back edges)."""
    for cid, ps in l['hyps'].items():
        for p, hy in ps.items():
            if hy.kind != 'poly': continue
            if cid not in l['h'].cells: continue
            hv = _loops.at_safe(l['h'].cells[cid], p)
            if not isinstance(hv, Poly): continue
            bs = []
            for b in l['backs']:
                x = _loops.at_safe(b.cells.get(cid), p)
                bs.append(x if isinstance(x, Poly) else None)
            e = _loops.at_safe(l['entry'].cells.get(cid), p)
            yield (cid, p), hv, e if isinstance(e, Poly) else None, bs

def steps(st, d):
    """The number d, if it is a small constant in this state."""
    m = st.F.norm(d).const()
    if m is None:
        for c in range(0, 9):
            if st.F.prove_eq(d, C(c)): m = c; break
    return m if m is not None and 0 <= m <= 16 else None
def instance(st, kv, K, conds):
    """States with what is known of an arbitrary completed iteration of a loop: (state, iteration number)."""
    t = fresh('t', 0, MAXLEN)
    out = []
    for f in st.F.assume(lt(t, K)):
        fs = [f]
        for c in conds:
            if c[0] == 'all': continue
            fs = [g for x in fs for g in x.assume(subst_deep(c, lambda p: subst_atom(p, kv, t)))]
        for x in fs:
            if not x.infeasible(): s = st.copy(); s.F = x; out.append((s, t))
    return out

# ------------------------------------------------------------------ P06: the header search
def find_header(S, item, prop):
    """P06: the result is the first position at which a (possibly incomplete) header prefix starts."""
    rep = Rep()
    r = anchor(S.P, 'find_header')
    nm = short(r['path'])
    R = S.run(r, timeout=400); I = R.I
    rep.saw(R)
    if R.error: return rep
    D = Data(I, R.entry, R.args[0])
    for st, msg in panics(I): rep.must(False, f'{nm}: does not panic', msg, st)
    def starts(st, i):
        """All ways in which a header can start at i."""
        sts = [st]
        for j in range(4):
            new = []
            for s in sts:
                for c in (ge(i + j - D.len), ge(D.len - i - j - 1)):
                    for f in s.F.assume(c):
                        if f.infeasible(): continue
                        s2 = s.copy(); s2.F = f
                        if c is not None and f.prove_ge(D.len - i - j - 1):
                            for f2 in f.assume(eq(D.at(s2, i + j) - PREFIX[j])):
                                if not f2.infeasible(): s3 = s2.copy(); s3.F = f2; new.append(s3)
                        else: new.append(s2)
            sts = new
        return sts
    def refuted(st, i): return not starts(st, i)
    def covered(st, x, y):
        """No header starts in x..y; None if the distance is not understood."""
        if st.F.prove_ge(x - y): return True
        if st.F.prove_ge(x + 16 - y): return few(st, x, y)
        for kv, K, conds in st.uni:
            m = steps(st, y - x - K)
            if m is None: continue
            # every position that a completed loop passed over, and m more
            for s, t in instance(st, kv, K, conds):
                if not refuted(s, x + t): break
            else:
                if all(refuted(st, x + K + t) for t in range(m)): return True
        return None
    def clear(st, y):
        """No header starts before y. True, False (some position is not refuted) or None (not decided)."""
        F = st.F
        if F.prove_ge(-y): return True
        worst = None
        for l, X in scans():
            if st is l['h'] : continue
            c = covered(st, X, y)
            if c: return True
            if c is False: worst = False
        if worst is None and F.prove_ge(C(16) - y):
            return few(st, ZERO, y)
        return worst
    def few(st, x, y):
        """No header starts in x..y, a range of at most 16 positions."""
        for t in range(16):
            for f in st.F.assume(ge(y - x - t - 1)):
                if f.infeasible(): continue
                s = st.copy(); s.F = f
                if not refuted(s, x + t): return False
        return True
    cache = {}
    def scans():
        """Loops with a variable before which no header starts."""
        for n, l in enumerate(I.loopinfo):
            for key, X, e, bs in head_vars(l):
                if e is None or any(b is None for b in bs): continue
                if not any(b != X for b in bs): continue
                k = (n, key)
                if k not in cache:
                    cache[k] = None
                    cache[k] = scan_ok(l, X, e, bs)
                if cache[k]: yield l, X
    def scan_ok(l, X, e, bs):
        if clear(l['entry'], l['entry'].F.norm(e)) is not True: return False
        for b, y in zip(l['backs'], bs):
            if b.F.infeasible(): continue
            if not covered(b, X, y): return False
        return True
    def candidates():
        return [(l, X, e, bs) for l in I.loopinfo for key, X, e, bs in head_vars(l) if e is not None and all(b is not None for b in bs)]
    rets = 0
    for st, k, g in R.outs:
        if k != 'ret': continue
        rets += 1
        rep.must(lambda: st.F.prove_ge(g) and st.F.prove_ge(D.len - g), f'{nm}: the result is a position in the data', show_val(g), st)
        for j in range(4):
            def prefix(s, j=j):
                for f in s.F.assume(ge(D.len - g - j - 1)):
                    if f.infeasible(): continue
                    s2 = s.copy(); s2.F = f
                    if not f.prove_eq(D.at(s2, g + j), C(PREFIX[j])): return False
                return True
            rep.must(lambda: every(I, st, prefix), f'{nm}: the bytes at the result are those of the header prefix, as far as they are there', f'byte {j} at {show_val(g)}', st)
        c = clear(st, g)
        if c is True: rep.must(True, f'{nm}: no header starts before the result', show_val(g), st)
        elif not any(True for _ in candidates()) or not simple_scan(I):
            rep.ob += 1; rep.und[f'{nm}: no header starts before the result'] = 'search structure not recognised'
        else: rep.must(False, f'{nm}: no header starts before the result', f'a position before {show_val(g)} can start a header', st)
    rep.some(R, rets > 0, f'{nm}: returns', '')
    return rep
def simple_scan(I):
    """One loop that moves through the data in constant steps: then a failed proof is a skipped header."""
    ls = [l for l in I.loopinfo]
    if len(ls) != 1: return False
    l = ls[0]
    for key, X, e, bs in head_vars(l):
        if e is not None and l['entry'].F.prove_eq(e, ZERO) and all(b is not None for b in bs) and all(b.F.norm(y - X).const() is not None for b, y in zip(l['backs'], bs)): return True
    return False

# ------------------------------------------------------------------ P02: the checksum
class NotLinear(Exception): pass
class Bits:
    """Affine domain over GF(2): a number is a vector of bits, each the sum of some input bits and a constant.
    A form is an integer: bit 0 is the constant, the other bits select input bits."""
    def __init__(self, F): self.vars = {}; self.inputs = []; self.F = F
    def var(self, a, i):
        k = (a.id, i)
        if k not in self.vars:
            self.vars[k] = 1 << (len(self.vars) + 1)
        return self.vars[k]
    def atom(self, a, width):
        if a not in self.inputs: self.inputs.append(a)
        return [self.var(a, i) for i in range(width)]
    def poly(self, p):
        c0 = 0; lin = {}
        for m, c in p.t.items():
            if m == (): c0 += c; continue
            if len(m) != 1: raise Unsup('product of inputs')
            for i, f in enumerate(self.of(ATOMS[m[0]])):
                k = c << i
                if f == 0: continue
                if f == 1: c0 += k; continue
                if f & 1: c0 += k; k = -k; f ^= 1
                lin[f] = lin.get(f, 0) + k
        bits = {}
        pos = []
        for f, k in lin.items():
            if k < 0: c0 += k; k = -k; f ^= 1
            while k:
                b = k.bit_length() - 1
                pos.append((b, f)); k -= 1 << b
        if c0 < 0: raise Unsup('negative number')
        for b in range(c0.bit_length()):
            if c0 >> b & 1: pos.append((b, 1))
        for b, f in pos:
            if b in bits: raise Unsup('addition with carry')
            bits[b] = f
        n = max(bits, default=-1) + 1
        return [bits.get(b, 0) for b in range(n)]
    def of(self, a):
        if a.kind in ('xor', 'and', 'or'):
            x, y = (self.poly(as_poly(z)) for z in a.args)
            n = max(len(x), len(y)); x += [0] * (n - len(x)); y += [0] * (n - len(y))
            return [self.bit(a.kind, p, q) for p, q in zip(x, y)]
        if a.kind == 'div':
            m = a.args[1]
            m = m if isinstance(m, int) else m.const()
            if m is None or m & (m - 1): raise Unsup('division')
            return self.poly(a.args[0])[m.bit_length() - 1:]
        if a.kind == 'tab':
            vs, idx = a.args
            x = self.poly(idx)
            if len(x) > 16 or 1 << len(x) > len(vs): raise Unsup('table index')
            for i in range(1 << len(x)):
                low = i & -i
                if vs[i] ^ vs[i ^ low] ^ vs[low] ^ vs[0] if i else 0: raise NotLinear(f'table entry {i}')
            n = max(v.bit_length() for v in vs)
            out = []
            for b in range(n):
                f = vs[0] >> b & 1
                for j, xf in enumerate(x):
                    if (vs[1 << j] ^ vs[0]) >> b & 1: f ^= xf
                out.append(f)
            return out
        lo, hi = self.F.interval(A(a))
        if a.kind == 'sym' and lo is not None and lo >= 0 and hi is not None and hi < 65536:
            return self.atom(a, 8 if a.hi is not None and a.hi < 256 else 16)
        raise Unsup('expression ' + a.kind)
    def bit(self, op, p, q):
        if op == 'xor': return p ^ q
        if op == 'or': return self.bit('and', p ^ 1, q ^ 1) ^ 1
        if p == 0 or q == 0 or p == q ^ 1: return 0
        if p == 1 or p == q: return q
        if q == 1: return p
        raise Unsup('product of input bits')
    def crc(self, c, byte):
        """The checksum after one more byte (CRC-16, polynomial 0x8005, most significant bit first)."""
        c = list(c)
        for i in range(7, -1, -1):
            top = c[15] ^ byte[i]
            c = [0] + c[:15]
            for b in (0, 2, 15): c[b] ^= top
        return c
def as_poly(z):
    if isinstance(z, Poly): return z
    if isinstance(z, int): return C(z)
    if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], Poly): return z[1]
    raise Unsup('operand')

def crc(S, item, prop):
    """P02: the result is the CRC-16 of the data, continued from the initial value."""
    rep = Rep()
    r = anchor(S.P, 'crc')
    nm = short(r['path'])
    R = S.run(r, timeout=400); I = R.I
    rep.saw(R)
    if R.error: return rep
    init = next((a for a in R.args if isinstance(a, Poly)), None)
    sl = next((a for a in R.args if isinstance(a, Slice)), None)
    if init is None or sl is None: raise Missing('checksum function with initial value and data')
    ia = init.single()
    D = Data(I, R.entry, sl)
    for st, msg in panics(I): rep.must(False, f'{nm}: does not panic', msg, st)
    class Bad(Exception): pass
    def step(st, v):
        """v as a number of checksum steps: (atom of the value before, position of the first byte or None, number of bytes)."""
        v = st.F.norm(v)
        if v.const() is not None: raise Unsup('constant')
        B = Bits(st.F)
        try: x = B.poly(v)
        except NotLinear as e: raise Bad(f'{e} does not belong to a CRC table')
        base = [a for a in B.inputs if D.pos(a) is None]
        byt = [a for a in B.inputs if D.pos(a) is not None]
        if len(base) != 1: raise Unsup('more than one running value')
        base = base[0]
        if byt:
            byt.sort(key=lambda a: sum(1 for b in byt if st.F.prove_ge(D.pos(a) - D.pos(b) - 1)))
            for n, a in enumerate(byt):
                if not st.F.prove_eq(D.pos(a), D.pos(byt[0]) + n): raise Bad(f'bytes at {D.pos(byt[0])} and {D.pos(a)} in one step')
        want = B.atom(base, 16)
        for a in byt: want = B.crc(want, B.atom(a, 8))
        if x + [0] * (16 - len(x)) != want: raise Bad('not a step of CRC-16 with polynomial 0x8005' if byt else 'the running value is changed without data')
        return base, (st.F.norm(D.pos(byt[0])) if byt else None), len(byt)
    loops = {}
    for l in I.loopinfo:
        for key, X, e, bs in head_vars(l):
            a = X.single()
            if a is not None and e is not None and all(b is not None for b in bs): loops[a.id] = (l, X, e, bs)
    inv = {}
    def invariant(a):
        """For the running value a of a loop: (value it started from, start position, position at the head)."""
        if a.id in inv:
            if inv[a.id] is None: raise Unsup('recursive running value')
            return inv[a.id]
        inv[a.id] = None
        l, X, e, bs = loops[a.id]
        P = None
        todo = []
        for b, y in zip(l['backs'], bs):
            if b.F.infeasible(): continue
            base, p, q = fold(b, y, a)
            if base is not a: raise Unsup('running value')
            todo.append((b, p, q))
            if P is None and p is not None: P = p
        if P is None: raise Unsup('no data in the loop')
        k = l['k'].single()
        nxt = subst_atom(P, k, l['k'] + 1)
        for b, p, q in todo:
            if p is None: raise Bad('a round of the loop skips data')
            if not b.F.prove_eq(p, P) or not b.F.prove_eq(q, nxt): raise Bad(f'one round continues at {q} instead of {nxt}')
        P0 = l['entry'].F.norm(subst_atom(P, k, ZERO))
        b0, s, t = fold(l['entry'], e, None)
        if s is None: s = P0
        elif not l['entry'].F.prove_eq(t, P0): raise Bad(f'the loop starts at {P0} instead of {t}')
        inv[a.id] = (b0, s, P)
        return inv[a.id]
    def fold(st, v, stop):
        """v is the checksum of the bytes s..t, continued from the value of the atom: (atom, s, t)."""
        base, p, n = step(st, v)
        if base is stop or base is ia: return base, p, (p + n if p is not None else None)
        if base.id not in loops: raise Unsup('running value ' + str(base))
        b0, s, P = invariant(base)
        P = st.F.norm(P)
        if p is not None and not st.F.prove_eq(p, P): raise Bad(f'bytes from {p} follow those before {P}')
        return b0, s, P + n
    rets = 0
    key = f'{nm}: the result is the CRC-16 (polynomial 0x8005, MSB first) of all bytes in order, continued from the initial value'
    for st, k, v in R.outs:
        if k != 'ret': continue
        rets += 1
        try:
            b, s, t = fold(st, v, None)
            if s is None: rep.must(lambda: st.F.prove_eq(D.len, ZERO), key, 'no data is used', st)
            else: rep.must(lambda: st.F.prove_eq(s, ZERO) and st.F.prove_eq(t, D.len), key, f'bytes {s} to {t}', st)
        except Bad as e: rep.must(False, key, str(e), st)
        except Unsup as e: rep.ob += 1; rep.und[key] = str(e)
    rep.some(R, rets > 0, f'{nm}: returns', '')
    return rep

# ------------------------------------------------------------------ P03: byte stuffing
class Bad(Exception): pass
# The pattern FF FF FD as an automaton over the classes FF, FD and other.
# Removing: state 3 is 'just after the pattern'; an FD there is dropped. Value: number of bytes that stay.
UNSTUFF = {0: {'FF': (1, 1), 'FD': (0, 1), 'xx': (0, 1)}, 1: {'FF': (2, 1), 'FD': (0, 1), 'xx': (0, 1)},
           2: {'FF': (2, 1), 'FD': (3, 1), 'xx': (0, 1)}, 3: {'FF': (1, 1), 'FD': (0, 0), 'xx': (0, 1)}}
# Counting: value 1 where an occurrence of the pattern ends.
COUNT = {0: {'FF': (1, 0), 'FD': (0, 0), 'xx': (0, 0)}, 1: {'FF': (2, 0), 'FD': (0, 0), 'xx': (0, 0)}, 2: {'FF': (2, 0), 'FD': (0, 1), 'xx': (0, 0)}}
CLASS = {'FF': lambda b: [eq(b - 255)], 'FD': lambda b: [eq(b - 253)], 'xx': lambda b: [ne(b - 255), ne(b - 253)]}

def assume_seq(st, conds):
    fs = [st.F]
    for c in conds: fs = [g for f in fs for g in f.assume(c) if not g.infeasible()]
    out = []
    for f in fs: s = st.copy(); s.F = f; out.append(s)
    return out

def control_vars(l):
    """Positions that can hold the state of an automaton: (value at the head, entry value, values at the back edges)."""
    out = []
    for cid, ps in l['hyps'].items():
        for p, hy in ps.items():
            if cid not in l['h'].cells or hy.kind not in ('poly', 'bool', 'any') or hy.mode == 'affine': continue
            out.append((_loops.at_safe(l['h'].cells[cid], p), _loops.at_safe(l['entry'].cells[cid], p), [_loops.at_safe(b.cells.get(cid), p) for b in l['backs']]))
    return [v for v in out if v[0] is not None and v[1] is not None and all(x is not None for x in v[2])]

def cval(st, x):
    """The constant value of a number or condition in a state, or None."""
    if isinstance(x, Poly): return st.F.norm(x).const()
    if isinstance(x, Agg): return x.variant if not x.fields else None
    if isinstance(x, Opq): return st.res.get(st.F.nkey(x.key))
    return st.F.decide(x)
def with_value(st, x, v):
    """The states in which x has the constant value v."""
    if isinstance(x, Poly): return assume_seq(st, [eq(x - v)])
    if isinstance(x, Agg): return [st] if cval(st, x) == v else []
    if isinstance(x, Opq):
        k = st.F.nkey(x.key)
        if st.res.get(k, v) != v: return []
        s = st.copy(); s.res = dict(s.res); s.res[k] = v
        return [s]
    return assume_seq(st, [x if v else c_not(x)])

def imprecise(st):
    """Do the facts of the state mention contents nothing is known about?"""
    for a in rules3.fact_atoms(st):
        if a.kind == 'sym' and _loops.has_mark(a.args[0], None): return True
    return False

def follow(I, l, D, trans, M, Mb, visit=None):
    """The loop runs the automaton over the data, one byte per round; M counts its values. Raises Bad or Unsup."""
    k = l['k']
    ctl = control_vars(l)
    ctl = [c for c in ctl if not (isinstance(c[0], Poly) and (c[0] == M or occurs(c[0].single().id, M) if c[0].single() else False))]
    # only those with a constant entry value can belong to the automaton
    ctl = [c for c in ctl if cval(l['entry'], c[1]) is not None]
    while True:
        try: return _follow(I, l, D, trans, M, Mb, ctl, visit)
        except KeyError as e:
            n = e.args[0]
            ctl = ctl[:n] + ctl[n + 1:]

def _follow(I, l, D, trans, M, Mb, ctl, visit):
    k = l['k']
    q0 = (0, tuple(cval(l['entry'], c[1]) for c in ctl))
    seen = {q0}; work = [q0]
    steps_ = 0
    while work:
        q, val = work.pop()
        for bi, b in enumerate(l['backs']):
            if b.F.infeasible(): continue
            ss = [b]
            for c, v in zip(ctl, val): ss = [y for x in ss for y in with_value(x, c[0], v)]
            for s0 in ss:
                byte = D.at(s0, k)
                for cls, mk in CLASS.items():
                    for s in assume_seq(s0, mk(byte)):
                        if imprecise(s): raise Unsup('the loop looks at what it wrote')
                        q2, w = trans[q][cls]
                        steps_ += 1
                        if not s.F.prove_eq(Mb[bi], M + w):
                            raise Bad(f'after state {q} a byte of class {cls} counts {s.F.norm(Mb[bi] - M)} instead of {w}')
                        if visit: visit(s, bi, w, q, cls)
                        new = []
                        for n, c in enumerate(ctl):
                            x = cval(s, c[2][bi])
                            if x is None: raise KeyError(n)
                            new.append(x)
                        st2 = (q2, tuple(new))
                        if st2 not in seen:
                            if len(seen) > 200: raise Unsup('too many control states')
                            seen.add(st2); work.append(st2)
    return len(seen), steps_

def looked_at(l, D):
    """Positions of the data a round looks at, relative to the number of the round (None: another kind of position)."""
    out = set()
    for b in l['backs']:
        for a in rules3.fact_atoms(b):
            p = D.pos(a)
            if p is None: continue
            d = p - l['k']
            if l['k'].single().id not in p.atoms(): continue
            out.add(d.const())
    return out

def occurs_at(D, s, p):
    """Does an occurrence of FF FF FD end at position p?"""
    if s.F.prove_ge(C(1) - p): return False
    if not s.F.prove_ge(p - 2): raise Split([ge(C(1) - p), ge(p - 2)])
    for j, v in ((0, 253), (1, 255), (2, 255)):
        t = s.F.decide(eq(D.at(s, p - j) - v))
        if t is False: return False
        if t is None: raise Split([eq(D.at(s, p - j) - v), ne(D.at(s, p - j) - v)])
    return True

def local(I, l, D, c, M, Mb):
    """Round k counts the occurrence that ends at position k + c. Raises Bad or Unsup."""
    n = [0]
    for bi, b in enumerate(l['backs']):
        if b.F.infeasible(): continue
        if imprecise(b): raise Unsup('the loop looks at what it wrote')
        def one(s):
            w = 1 if occurs_at(D, s, l['k'] + c) else 0
            n[0] += 1
            if not s.F.prove_eq(Mb[bi], M + w): raise Bad(f'{s.F.norm(Mb[bi] - M)} instead of {w} counted for the bytes up to {l["k"] + c}')
            return True
        every(I, b, one)
    return 1, n[0]

def seq_at_entry(R, sl): return sl.cell, sl.path
def buf(I, st, sl):
    v = I.read(st, (sl.cell, sl.path))
    return v.seq if isinstance(v, BufV) else v

def counters(l):
    """Values that can count something: (value at the head, values at the back edges), 0 at the entry."""
    for key, X, e, bs in head_vars(l):
        if e is None or any(b is None for b in bs): continue
        if l['entry'].F.prove_eq(e, ZERO): yield X, bs
        # a position that starts at the end counts the distance to it
    k = l['k']
    for key, X, e, bs in head_vars(l):
        if e is None or any(b is None for b in bs) or X == k: continue
        if l['entry'].F.prove_eq(e, ZERO): yield k - X, [k + 1 - b for b in bs]

def unstuff(S, item, prop):
    """P03: removing the stuffing."""
    rep = Rep()
    r = anchor(S.P, 'unstuff')
    nm = short(r['path'])
    R = S.run(r, timeout=400); I = R.I
    rep.saw(R)
    if R.error: return rep
    sl = next((a for a in R.args if isinstance(a, Slice)), None)
    if sl is None: raise Missing('unstuff function over a slice')
    D = Data(I, R.entry, sl)
    n = D.len
    for st, msg in panics(I): rep.must(False, f'{nm}: does not panic', msg)
    outs = [(st, v) for st, k, v in R.outs if k == 'ret']
    rep.some(R, outs, f'{nm}: returns', '')
    key = f'{nm}: exactly the FD bytes after FF FF FD are removed'
    ls = [l for l in I.loopinfo if l['backs']]
    if len(ls) != 1:
        rep.ob += 1; rep.und[key] = f'{len(ls)} loops'; return rep
    l = ls[0]; k = l['k']
    h = l['h']; qh = buf(I, h, sl)
    why = {}
    best = None
    for M, Mb in counters(l):
        if not all(st.F.prove_eq(v, M) for st, v in outs): continue
        def visit(s, bi, w, q, cls):
            qb = buf(I, s, sl)
            # what was already emitted stays
            if not every(I, s, lambda x: same_seq(I, x, I.seq_extract(x, qb, sl.off, x.F.norm(M)), I.seq_extract(x, qh, sl.off, x.F.norm(M)))): raise Bad(f'bytes that are already in place are overwritten (state {q}, class {cls})')
            # the byte is put behind them
            if w and not every(I, s, lambda x: x.F.prove_eq(models.get(I, x, Slice(sl.cell, sl.path, sl.off, sl.len), x.F.norm(M)), D.at(x, k))): raise Bad(f'a byte of class {cls} after state {q} is not put at the end of the result')
        try:
            got = follow(I, l, D, UNSTUFF, M, Mb, visit)
            best = (M, got); break
        except (Bad, Unsup) as e: why[M] = e
    if best is None:
        if why and all(isinstance(e, Bad) for e in why.values()): rep.must(False, key, '; '.join(str(e) for e in why.values()), None)
        elif not why and outs and all(st.F.prove_eq(k, n) for st, v in outs): rep.must(False, key, f'the returned length {outs[0][1]} does not count the remaining bytes')
        else: rep.ob += 1; rep.und[key] = '; '.join(str(e) for e in why.values()) or 'structure not recognised'
        return rep
    rep.ob += best[1][1]; rep.ok += best[1][1]
    rep.must(True, key, f'{best[1][0]} states of the automaton and the loop, {best[1][1]} transitions', None)
    rep.must(lambda: every(I, l['entry'], lambda s: same_seq(I, s, I.seq_extract(s, buf(I, s, sl), sl.off, n), I.seq_extract(s, buf(I, R.entry, sl), sl.off, n))), f'{nm}: nothing is changed before the first byte is read', '')
    for st, v in outs:
        rep.must(lambda: st.F.prove_eq(k, n), f'{nm}: all bytes are read', show_val(st.F.norm(k)))
        qs = buf(I, st, sl)
        rep.must(lambda: every(I, st, lambda s: same_seq(I, s, I.seq_extract(s, qs, sl.off, s.F.norm(v)), I.seq_extract(s, qh, sl.off, s.F.norm(best[0])))), f'{nm}: the result is not changed afterwards', '')
    return rep

def stuff(S, item, prop):
    """P03: inserting the stuffing."""
    rep = Rep()
    r = anchor(S.P, 'stuff')
    nm = short(r['path'])
    R = S.run(r, timeout=400); I = R.I
    rep.saw(R)
    if R.error: return rep
    sl = next((a for a in R.args if isinstance(a, Slice)), None)
    n = next((a for a in R.args if isinstance(a, Poly)), None)
    if sl is None or n is None: raise Missing('stuff function over a slice and a length')
    D = Data(I, R.entry, sl)
    q0 = buf(I, R.entry, sl)
    key = f'{nm}: one FD is inserted after every FF FF FD and nothing else is changed'
    def undecided(m): rep.ob += 1; rep.und[key] = m; return rep
    ls = [l for l in I.loopinfo if l['backs']]
    # the loop that counts
    cnt = [l for l in ls if buf_same(I, l, sl)]
    mov = [l for l in ls if not buf_same(I, l, sl)]
    if len(cnt) != 1 or len(mov) != 1: return undecided(f'{len(cnt)} counting and {len(mov)} moving loops')
    c, m = cnt[0], mov[0]
    N = None; why = []
    rel = looked_at(c, D)
    if None in rel or not rel: return undecided('the counting loop looks at other bytes than the next one')
    # with the next byte only: an automaton; with more: the whole occurrence
    last = None if len(rel) == 1 else max(rel)
    for M, Mb in counters(c):
        try:
            got = follow(I, c, D, COUNT, M, Mb) if last is None else local(I, c, D, last, M, Mb)
            N = M; break
        except (Bad, Unsup) as e: why.append((M, e))
    if N is None:
        # which counter is the one that is used? The one in the required length
        rel = [(M, e) for M, e in why if any(mentions(x, M) for x in lengths(I, R))]
        if rel and all(isinstance(e, Bad) for M, e in rel): rep.must(False, f'{nm}: the occurrences of FF FF FD are counted', '; '.join(str(e) for M, e in rel)); return rep
        return undecided('counting loop: ' + '; '.join(str(e) for M, e in why))
    rep.ob += got[1]; rep.ok += got[1]
    rep.must(True, f'{nm}: the occurrences of FF FF FD are counted', f'{got[0]} states, {got[1]} transitions')
    for o in c['exits']:
        if o[1] == 'panic' or o[0].F.infeasible(): continue
        rep.must(lambda: o[0].F.prove_ge(c['k'] + (last or 0) - n), f'{nm}: all bytes are counted', show_val(o[0].F.norm(c['k'])))
    # the loop that moves: consumed from the end; R bytes are left, the contents end at E
    k = m['k']; h = m['h']; qh = buf(I, h, sl)
    E = None
    for cid, ps in m['hyps'].items():
        for p, hy in ps.items():
            if hy.kind == 'seq' and hy.mode == 'keep' and hy.data[0] == 'lo': E = hy.data[1]
    if E is None: return undecided('the loop that moves the data was not understood')
    E = E - sl.off
    def back(b, bi, x):
        """A function of the values at the head after one more round."""
        pairs = [(k.single(), k + 1)]
        for key_, X, e, bs in head_vars(m):
            a = X.single()
            if a is not None and a is not k.single(): pairs.append((a, bs[bi]))
        return _loops.subst_many(x, pairs)
    why = []
    done = None
    cands = []
    for key_, X, e, bs in head_vars(m):
        if e is None: continue
        f = m['entry'].F
        if f.prove_eq(e, ZERO): cands.append((n - X, [n - b for b in bs]))
        if f.prove_eq(e, n): cands.append((X, bs))
        if f.prove_eq(e, n - 1): cands.append((X + 1, [b + 1 for b in bs]))
    tr = [0]
    for L, Lb in cands:
        try:
            for bi, b in enumerate(m['backs']):
                if b.F.infeasible(): continue
                if imprecise(b): raise Unsup('the loop looks at what it wrote')
                qb = buf(I, b, sl)
                E2 = back(b, bi, E)
                d = b.F.norm(L - Lb[bi]).const()
                if d is None or d < 1 or d > 8: raise Unsup('step of the loop')
                def one(s):
                    want = []
                    occ = 0
                    for j in range(d):
                        p = Lb[bi] + j
                        x = D.at(s, p)
                        want.append(x)
                        if occurs_at(D, s, p): want.append(C(253)); occ += 1
                    if not s.F.prove_eq(E - E2, C(d + occ)): raise Bad(f'{d} bytes with {occ} occurrences of the pattern take {s.F.norm(E - E2)} bytes')
                    tr[0] += 1
                    return same_seq(I, s, I.seq_extract(s, qb, sl.off + E2, C(d + occ)), (('v', tuple(want)),))
                if not every(I, b, one): raise Bad('other bytes are written than those of the stuffed data')
                rest_ = lambda x: same_seq(I, x, I.seq_extract(x, qb, sl.off + E, x.F.norm(n + N - E)), I.seq_extract(x, qh, sl.off + E, x.F.norm(n + N - E)))
                if not every(I, b, rest_): raise Bad('bytes that are already in place are overwritten')
            if not m['entry'].F.prove_eq(_loops.initial(E, [((cid, p), hy) for cid, ps in m['hyps'].items() for p, hy in ps.items() if hy.mode == 'phi'], k.single(), m['entry']), n + N): raise Bad('the stuffed data does not end after the data and all inserted bytes')
            done = (L, E); break
        except (Bad, Unsup) as e: why.append(e)
    if done is None:
        if why and all(isinstance(e, Bad) for e in why): rep.must(False, key, '; '.join(str(e) for e in why)); return rep
        return undecided('; '.join(str(e) for e in why) or 'no position found')
    L, E = done
    rep.ob += tr[0]; rep.ok += tr[0]
    rep.must(True, key, f'{tr[0]} cases of one round')
    rep.must(lambda: every(I, m['entry'], lambda s: same_seq(I, s, I.seq_extract(s, buf(I, s, sl), sl.off, n), I.seq_extract(s, q0, sl.off, n))), f'{nm}: nothing is changed before', '')
    after = [o[0] for o in m['exits']]
    def passed(st): return mentions_atoms(st, m)
    for st, msg in panics(I):
        # (E - L is the number of occurrences among the first L bytes: none when L is 2 or less)
        # allowed: a length beyond the buffer, and contradictions of what was shown above (no bytes left, but insertions left)
        def okay(s):
            if s.F.prove_ge(n - sl.len - 1): return True
            return passed(s) and s.F.prove_ge(C(2) - L) and s.F.decide(eq(E - L)) is False
        rep.must(lambda: every(I, st, okay), f'{nm}: does not panic', msg)
    for st, kd, v in R.outs:
        if kd != 'ret': continue
        res = Res(I, v)
        qs = buf(I, st, sl)
        whole = lambda s, x, y: same_seq(I, s, I.seq_extract(s, x, sl.off, s.F.norm(n)), I.seq_extract(s, y, sl.off, s.F.norm(n)))
        if res.ok and passed(st):
            rep.must(lambda: st.F.prove_eq(res.val, n + N), f'{nm}: the length of the stuffed data is returned', show_val(res.val))
            rep.must(lambda: st.F.prove_eq(L, E) or st.F.prove_ge(C(2) - L), f'{nm}: moving stops only when no occurrence is left', f'{st.F.norm(L)} bytes left, contents end at {st.F.norm(E)}')
            rep.must(lambda: every(I, st, lambda s: same_seq(I, s, I.seq_extract(s, qs, sl.off, s.F.norm(n + N)), I.seq_extract(s, qh, sl.off, s.F.norm(n + N)))), f'{nm}: the result is not changed afterwards', '')
        elif res.ok:
            rep.must(lambda: st.F.prove_eq(N, ZERO) and st.F.prove_eq(res.val, n) and every(I, st, lambda s: whole(s, qs, q0)), f'{nm}: data without the pattern stays as it is', show_val(res.val))
        else:
            lf = res.leaf
            rep.must(lambda: st.F.prove_ge(n + N - sl.len - 1), f'{nm}: only what does not fit is refused', str(v)[:160])
            if lf is not None: rep.must(lambda: st.F.prove_eq(field(I, lf, 'required_size'), n + N) and st.F.prove_eq(field(I, lf, 'total_size'), sl.len), f'{nm}: the error has the required and the available size', str(lf)[:160])
    return rep

def buf_same(I, l, sl):
    """The loop does not change the contents of the slice."""
    return not any(cid == sl.cell and hy.kind == 'seq' for cid, ps in l['hyps'].items() for hy in ps.values())
def mentions(p, M):
    a = set(M.atoms()); return isinstance(p, Poly) and bool(a & p.atoms())
def mentions_atoms(st, l):
    """Is the state one after the loop?"""
    k = l['k'].single().id
    return any(a.id == k for a in rules3.fact_atoms(st)) or any(o[0] is st for o in l['exits'])
def lengths(I, R):
    out = []
    for st, k, v in R.outs:
        if k != 'ret': continue
        r = Res(I, v)
        x = r.val if r.ok else r.leaf
        if isinstance(x, Poly): out.append(x)
        elif isinstance(x, Agg): out += [f for f in x.fields if isinstance(f, Poly)]
    return out

def run(S, t, prop):
    try: return t(S, t, prop)
    except (Unsup, Split) as e:
        rep = Rep(); rep.ob += 1; rep.und[f'{t.__name__}: analysis incomplete'] = str(e)[:200]
        return rep
TASKS = {'P03': (lambda S: [stuff, unstuff], run), 'P02': (lambda S: [crc], run), 'P19': (lambda S: [transfer_time], run), 'P06': (lambda S: [find_header], run)}
