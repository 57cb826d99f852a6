"""Kernel functions on data of a fixed small length (bounded mode).

When the general argument for a kernel function is not found (its loops have another structure than those that
kernels.py relates to the specification), the function is analysed again with the length of the data fixed, for all small
lengths. The loops then have a fixed number of rounds and every abstract state is exact: the bytes are unknown values about
which a partition knows what the branches compared. In each partition the result has to be that of the specification. A
partition where it is not refutes the property; data that is longer is not covered, so nothing is proved here."""
from spec import *
from contracts import anchor, PREFIX
from session import *
import kernels, models, loops

BUDGET = 120      # seconds for one kernel

class Done(Exception): pass

def fixed(S, r, **lens):
    """Runs r with fixed lengths: sl = length of its slice, n = value of its (only) number argument."""
    D = []
    def prep(I, st, args):
        sl = next(a for a in args if isinstance(a, Slice))
        D.append(kernels.Data(I, st.copy(), sl))
        c = eq(sl.len - lens['sl'])
        if 'n' in lens: c = c_and(c, eq(next(a for a in args if isinstance(a, Poly)) - lens['n']))
        f = st.F.assume(c)
        if len(f) != 1: raise Unsup('fixed length')
        st.F = f[0]
    R = S.run(r, prepare=prep, timeout=60)
    return R, D[0] if D else None

def classes(st, D, n):
    """All assignments of byte classes to the first n bytes that the state allows: (state, tuple of classes)."""
    sts = [(st, ())]
    for i in range(n):
        new = []
        for s, w in sts:
            b = s.F.norm(D.at(s, C(i)))
            for c in ('FF', 'FD', 'xx'):
                fs = [s.F]
                for cond in kernels.CLASS[c](b): fs = [g for f in fs for g in f.assume(cond)]
                for f in fs:
                    if f.infeasible(): continue
                    s2 = s.copy(); s2.F = f
                    new.append((s2, w + (c,)))
        sts = new
    return sts

def differs(st, a, b):
    """Can the two values differ in this state?"""
    if not isinstance(a, Poly): raise Unsup('content')
    d = st.F.norm(a - b)
    return any(not f.infeasible() for f in st.F.assume(ne(d)))

class Bounded:
    def __init__(self, S, role):
        self.S = S; self.role = role
        self.r = anchor(S.P, role); self.nm = short(self.r['path'])
        self.viol = {}
        self.runs = 0; self.parts = 0
        self.t0 = time.time()
    def run(self, **lens):
        if time.time() - self.t0 > BUDGET: raise Done()
        R, D = fixed(self.S, self.r, **lens)
        if D is None or R.error or R.I.stuck: raise Done()
        self.runs += 1
        I = R.I
        for p in I.panics:
            if not p.st.taint and not p.st.F.infeasible():
                self.bad(f'{self.nm}: does not panic', f'{p.msg} with {lens}')
        for st, k, v in R.outs:
            if st.taint: raise Done()
            self.parts += 1
            if k == 'ret': yield R, I, D, st, v
    def bad(self, key, why):
        self.viol.setdefault(key + ' [data of a few bytes]', why)
    def go(self):
        try: getattr(self, 'k_' + self.role)()
        except (Unsup, Split, Done): pass
        return self
    # ---------------------------------------------------------------- the kernels
    def k_crc(self):
        key = f'{self.nm}: the result is the CRC-16 (polynomial 0x8005, MSB first) of all bytes in order, continued from the initial value'
        for n in range(0, 10):
            for R, I, D, st, v in self.run(sl=n):
                init = next(a for a in R.args if isinstance(a, Poly))
                B = kernels.Bits(st.F)
                try: x = B.poly(st.F.norm(v))
                except kernels.NotLinear: raise Done()
                want = B.poly(st.F.norm(init))
                want = (want + [0] * 16)[:16]
                for i in range(n): want = B.crc(want, (B.poly(st.F.norm(D.at(st, C(i)))) + [0] * 8)[:8])
                if (list(x) + [0] * 16)[:max(16, len(x))] != want: self.bad(key, f'{n} bytes of data: {show_val(v)[:200]}')
            if self.viol: return
    def k_unstuff(self):
        key = f'{self.nm}: exactly the FD bytes after FF FF FD are removed'
        for n in range(0, 8):
            for R, I, D, st, v in self.run(sl=n):
                sl = D.sl
                for s, w in classes(st, D, n):
                    q = 0; keep = []
                    for i, c in enumerate(w):
                        q, k = kernels.UNSTUFF[q][c]
                        if k: keep.append(i)
                    if differs(s, v, C(len(keep))): self.bad(key, f'{" ".join(w)}: {show_val(s.F.norm(v))} bytes remain instead of {len(keep)}'); continue
                    for j, i in enumerate(keep):
                        if differs(s, models.get(I, s, sl, C(j)), D.at(s, C(i))): self.bad(key, f'{" ".join(w)}: byte {j} of the result')
            if self.viol: return
    def k_stuff(self):
        key = f'{self.nm}: one FD is inserted after every FF FF FD and nothing else is changed'
        small = f'{self.nm}: refuses only data that does not fit'
        for n in range(0, 8):
            for room in (0, 1, 2, 3) if n >= 6 else (0, 1, 2):
                for R, I, D, st, v in self.run(sl=n + room, n=n):
                    if not (isinstance(v, Agg) and len(v.fields) == 1): raise Done()
                    good = kernels_ok(I, v)
                    for s, w in classes(st, D, n):
                        q = 0; want = []
                        for i, c in enumerate(w):
                            q, k = kernels.COUNT[q][c]
                            want.append(D.at(s, C(i)))
                            if k: want.append(C(253))
                        fits = len(want) <= n + room
                        if good != fits:
                            self.bad(small, f'{" ".join(w)} in {n + room} bytes: {"accepted" if good else "refused"}'); continue
                        if not good: 
                            e = v.fields[0]
                            if isinstance(e, Agg) and len(e.fields) == 2 and all(isinstance(x, Poly) for x in e.fields):
                                names = [f['name'] for f in I.P.types[self.errty(I, e)]['variants'][0]['fields']] if self.errty(I, e) is not None else []
                                for nme, x in zip(names, e.fields):
                                    if nme.startswith('req') and differs(s, x, C(len(want))): self.bad(small, f'{" ".join(w)}: required size {show_val(x)} instead of {len(want)}')
                                    if nme.startswith('total') and differs(s, x, C(n + room)): self.bad(small, f'{" ".join(w)}: total size {show_val(x)} instead of {n + room}')
                            continue
                        if differs(s, v.fields[0], C(len(want))): self.bad(key, f'{" ".join(w)}: {show_val(s.F.norm(v.fields[0]))} bytes instead of {len(want)}'); continue
                        for j, x in enumerate(want):
                            if differs(s, models.get(I, s, D.sl, C(j)), x): self.bad(key, f'{" ".join(w)}: byte {j} of the result')
                if self.viol: return
    def errty(self, I, e):
        for i, t in enumerate(I.P.types):
            if t.get('k') == 'adt' and t.get('name') == e.ty: return i
        return None
    def k_find_header(self):
        for n in range(0, 8):
            for R, I, D, st, g in self.run(sl=n):
                c = st.F.norm(g).const() if isinstance(g, Poly) else None
                if c is None: raise Done()
                if not 0 <= c <= n: self.bad(f'{self.nm}: the result is a position in the data', f'{c} of {n}'); continue
                for j in range(min(4, n - c)):
                    if differs(st, D.at(st, C(c + j)), C(PREFIX[j])): self.bad(f'{self.nm}: the bytes at the result are those of the header prefix, as far as they are there', f'byte {j} at {c} of {n}')
                for i in range(c):
                    fs = [st.F]
                    for j in range(min(4, n - i)): fs = [h for f in fs for h in f.assume(eq(D.at(st, C(i + j)) - PREFIX[j]))]
                    if any(not f.infeasible() for f in fs): self.bad(f'{self.nm}: no header starts before the result', f'position {i}, result {c} of {n} bytes')
            if self.viol: return

def kernels_ok(I, v):
    r = Res(I, v)
    if r.ok is None: raise Unsup('result')
    return bool(r.ok)

def refute(S, role, rep):
    """Adds the refutations found on small data to a report with undecided obligations."""
    old = loops.REFUTE
    loops.REFUTE = 1000
    try: b = Bounded(S, role).go()
    finally: loops.REFUTE = old
    for k, v in b.viol.items(): rep.viol.setdefault(k, v)
    rep.notes.append(f'{role}: {b.runs} runs with fixed lengths, {b.parts} partitions')
    return b
