"""Numeric part of the abstract domain: polynomials over interned atoms, and fact sets
(equalities as substitutions, inequalities, disequalities) with polyhedral entailment."""
import ctypes, os

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'deep')
    def __repr__(self): return f'{self.kind}{self.args}'

ATOMS = []
_intern = {}

def has_poly(x):
    if isinstance(x, Poly): return not x.isconst()
    if isinstance(x, tuple): return any(has_poly(y) for y in x)
    return getattr(x, 'deep', False)

def atom(kind, args=(), lo=None, hi=None):
    k = (kind, args)
    a = _intern.get(k)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi
        a.deep = has_poly(args)
        ATOMS.append(a); _intern[k] = a
    return a

_fresh = [0]
def fresh_id():
    _fresh[0] += 1
    return _fresh[0]

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_h', '_k')
    def __init__(self, t):
        self.t = t; self._h = None; self._k = None
    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.t.items())
        return k
    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key())
        return h
    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)
    def __ne__(self, o): return not self == o
    def isconst(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)
    def const(self):
        """The constant value, or None."""
        t = self.t
        if not t: return 0
        if len(t) == 1 and () in t: return t[()]
        return None
    def c0(self): return self.t.get((), 0)
    def __add__(self, o):
        if isinstance(o, int): o = C(o)
        if not self.t: return o
        if not o.t: return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: del r[m]
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, int): o = C(o)
        if not o.t: return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v: r[m] = v
            else: del r[m]
        return Poly(r)
    def __rsub__(self, o): return C(o) - self
    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            if o == 1: return self
            return Poly({m: c * o for m, c in self.t.items()})
        if o.isconst(): return self * o.c0()
        if self.isconst(): return o * self.c0()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s
    def single(self):
        """If this is exactly one atom with coefficient 1, the atom."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1: return ATOMS[m[0]]
        return None
    def deg(self):
        return max((len(m) for m in self.t), default=0)
    def __repr__(self):
        return show(self)

def C(n): return Poly({(): n}) if n else ZERO
ZERO = Poly({})
ONE = Poly({(): 1})
def A(a): return Poly({(a.id,): 1})

def show(p, depth=0):
    if not isinstance(p, Poly): return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        n = '*'.join(show_atom(ATOMS[i], depth) for i in m)
        if not m: out.append(f'{c:+d}')
        elif c == 1: out.append('+' + n)
        elif c == -1: out.append('-' + n)
        else: out.append(f'{c:+d}*{n}')
    s = ' '.join(out) if out else '0'
    return s[1:] if s.startswith('+') else s

def show_arg(x, depth):
    if isinstance(x, Poly): return show(x, depth + 1)
    if isinstance(x, tuple): return '(' + ','.join(show_arg(y, depth + 1) for y in x) + ')'
    return str(x)

def show_atom(a, depth=0):
    if depth > 4: return '..'
    if a.kind == 'sym': return show_key(a.args[0], depth)
    return a.kind + '(' + ','.join(show_arg(x, depth) for x in a.args) + ')'

def show_key(k, depth=0):
    if isinstance(k, tuple): return '.'.join(show_key(x, depth + 1) for x in k)
    if isinstance(k, Poly): return '[' + show(k, depth + 1) + ']'
    return str(k)

def sym(key, lo=None, hi=None):
    return A(atom('sym', (key,), lo, hi))

def fresh(name, lo=None, hi=None):
    return sym((name, '#%d' % fresh_id()), lo, hi)

# ---------------------------------------------------------------- deep substitution
def subst_deep(x, f):
    """Rebuild a key / args tuple, applying f to every polynomial inside."""
    if isinstance(x, Poly): return f(x)
    if isinstance(x, tuple):
        r = tuple([subst_deep(y, f) for y in x])
        return x if all(a is b for a, b in zip(r, x)) else r
    sd = getattr(x, 'subst', None)
    if sd is not None and getattr(x, 'deep', False): return sd(f)
    return x

REBUILD = {}   # kind -> function(args) -> Poly, to re-normalise structured atoms

def rebuild(a, args):
    r = REBUILD.get(a.kind)
    if r is not None: return r(args)
    return A(atom(a.kind, args, a.lo, a.hi))

def mk_div(p, m):
    """floor(p / m) for constant m > 0."""
    if m == 1: return p
    q = {}; r = {}
    for mo, c in p.t.items():
        d, e = divmod(c, m) if mo == () else ((c // m, 0) if c % m == 0 else (0, c))
        if d: q[mo] = d
        if e: r[mo] = e
    r = Poly(r); q = Poly(q)
    if not r.t: return q
    lo, hi = static_interval(r)
    if lo is not None and hi is not None and lo // m == hi // m:
        return q + (lo // m)
    # div(div(x, a), b) = div(x, a*b)
    s = r.single()
    if s is not None and s.kind == 'div' and isinstance(s.args[1], int):
        return q + mk_div(s.args[0], s.args[1] * m)
    return q + A(atom('div', (r, m), None if lo is None else lo // m, None if hi is None else hi // m))
REBUILD['div'] = lambda args: mk_div(args[0], args[1])

def mk_divp(p, m):
    """floor(p / m) for a symbolic positive m and non-negative p."""
    if m.isconst(): return mk_div(p, m.c0())
    # m * q + r
    if not p.t: return ZERO
    if p == m: return ONE
    lo, hi = static_interval(p)
    return A(atom('divp', (p, m), 0, hi))
REBUILD['divp'] = lambda args: mk_divp(args[0], args[1])

PSUM_MAX = 1 << 60   # assumption: the sizes of all data handed to one call add up to less than this
PSUM = {}    # template id -> (bound atom, poly)
def mk_psum(tid, k):
    """sum of the template over 0 <= j < k."""
    c = k.c0()
    base = k - c if c > 0 else k
    r = ZERO
    if c > 0 and c <= 16:
        b, f = PSUM[tid]
        for j in range(c):
            r = r + subst_atom(f, b, base + j)
    else:
        base = k
    if base.t:
        r = r + A(atom('psum', (tid, base), 0, PSUM_MAX))
    return r
REBUILD['psum'] = lambda args: mk_psum(args[0], args[1])

def subst_atom(p, a, val, memo=None):
    """Replace atom a (an Atom) by the polynomial val everywhere in p, deeply."""
    if memo is None: memo = {}
    aid = a.id
    def f(q):
        h = memo.get(q)
        if h is not None: return h
        r = ZERO; changed = False
        for m, c in q.t.items():
            term = None; plain = []
            for i in m:
                if i == aid:
                    term = val if term is None else term * val; changed = True
                else:
                    at = ATOMS[i]
                    if at.deep:
                        na = subst_deep(at.args, f)
                        if na is not at.args:
                            v = rebuild(at, na); changed = True
                            term = v if term is None else term * v
                            continue
                    plain.append(i)
            if term is None: r = r + Poly({m: c})
            else: r = r + term * Poly({tuple(sorted(plain)): c})
        if not changed: r = q
        memo[q] = r
        return r
    return f(p)

def occurs(aid, x, memo=None):
    """Does atom id occur (deeply) in x?"""
    if memo is None: memo = {}
    if isinstance(x, Poly):
        v = memo.get(x)
        if v is not None: return v
        r = False
        for m in x.t:
            for i in m:
                if i == aid: r = True; break
                at = ATOMS[i]
                if at.deep and occurs(aid, at.args, memo): r = True; break
            if r: break
        memo[x] = r
        return r
    if isinstance(x, tuple): return any(occurs(aid, y, memo) for y in x)
    if getattr(x, 'deep', False): return x.occurs(aid, memo)
    return False

def static_interval(p):
    lo = hi = 0
    for m, c in p.t.items():
        l = h = 1
        for i in m:
            a = ATOMS[i]
            l, h = imul(l, h, a.lo, a.hi)
        if c > 0:
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        else:
            lo, hi = (None if lo is None or h is None else lo + c * h), (None if hi is None or l is None else hi + c * l)
    return lo, hi

def imul(l1, h1, l2, h2):
    if l1 == 1 and h1 == 1: return l2, h2
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
        return l1 * l2, (None if h1 is None or h2 is None else h1 * h2)
    if None in (l1, h1, l2, h2): return None, None
    v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(v), max(v)

# ---------------------------------------------------------------- LP
_lp = None
def _load_lp():
    global _lp
    if _lp is None:
        import extract
        _lp = ctypes.CDLL(extract.build_lp()).lp_infeasible
        _lp.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
        _lp.restype = ctypes.c_int
    return _lp

STATS = {'lp': 0, 'lp_infeasible': 0, 'prove': 0}

# ---------------------------------------------------------------- conditions
# True | False | ('ge', p) | ('eq', p) | ('ne', p) | ('and', c...) | ('or', c...) | ('bv', key, positive)
def c_not(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'ge': return ('ge', -c[1] - 1)
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'and': return ('or',) + tuple(c_not(x) for x in c[1:])
    if k == 'or': return ('and',) + tuple(c_not(x) for x in c[1:])
    if k == 'bv': return ('bv', c[1], not c[2])
    raise AssertionError(c)

def c_and(*cs):
    r = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c[0] == 'and': r.extend(c[1:])
        else: r.append(c)
    if not r: return True
    return r[0] if len(r) == 1 else ('and',) + tuple(r)

def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))

def ge(p):
    c = p.const()
    return (c >= 0) if c is not None else ('ge', p)
def eq(p):
    c = p.const()
    return (c == 0) if c is not None else ('eq', p)
def ne(p):
    c = p.const()
    return (c != 0) if c is not None else ('ne', p)
def le(a, b): return ge(b - a)
def lt(a, b): return ge(b - a - 1)

# ---------------------------------------------------------------- facts
class Facts:
    __slots__ = ('sub', 'ges', 'nes', 'rng', 'bvs', 'disj', '_memo', '_nmemo', 'dead', 'res')
    def __init__(self):
        self.sub = {}      # atom id -> Poly
        self.ges = ()      # polys >= 0 (normalised)
        self.nes = ()      # polys != 0
        self.rng = {}      # atom id -> (lo, hi)
        self.bvs = {}      # key -> bool
        self.disj = ()     # disjunctions: tuples of conditions
        self._memo = {}; self._nmemo = {}
        self.dead = False
    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = self.sub; f.ges = self.ges; f.nes = self.nes; f.rng = self.rng; f.bvs = self.bvs; f.disj = self.disj
        f._memo = self._memo; f._nmemo = self._nmemo; f.dead = self.dead
        return f
    # -- normalisation
    def norm(self, p):
        if not self.sub: return p
        r = self._nmemo.get(p)
        if r is not None: return r
        sub = self.sub
        cur = p
        r = ZERO; changed = False
        for m, c in p.t.items():
            term = None; plain = None
            for n_, i in enumerate(m):
                v = sub.get(i)
                if v is None:
                    at = ATOMS[i]
                    if at.deep:
                        na = subst_deep(at.args, self.norm)
                        if na is not at.args: v = rebuild(at, na)
                        if v is not None and not isinstance(v, Poly): v = None
                if v is not None:
                    if plain is None: plain = list(m[:n_])
                    term = v if term is None else term * v
                    changed = True
                elif plain is not None: plain.append(i)
            if term is None: r = r + Poly({m: c})
            else: r = r + term * Poly({tuple(sorted(plain)): c})
        if not changed: r = p
        elif r != p: r = self.norm(r)
        self._nmemo[cur] = r
        return r
    def arange(self, i):
        r = self.rng.get(i)
        if r is not None: return r
        a = ATOMS[i]
        k = a.kind
        if k == 'xor' or k == 'or' or k == 'and':
            # bit operations: from the current ranges of the operands
            (l1, h1), (l2, h2) = self.interval(a.args[0]), self.interval(a.args[1])
            if h1 is not None and h2 is not None and l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                h = min(h1, h2) if k == 'and' else (1 << max(h1.bit_length(), h2.bit_length())) - 1
                return a.lo, (h if a.hi is None else min(h, a.hi))
        elif k == 'div' and isinstance(a.args[1], int):
            l, h = self.interval(a.args[0])
            l = None if l is None else l // a.args[1]; h = None if h is None else h // a.args[1]
            if a.lo is not None and (l is None or l < a.lo): l = a.lo
            if a.hi is not None and (h is None or h > a.hi): h = a.hi
            return l, h
        return a.lo, a.hi
    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if not m:
                l = h = 1
            else:
                l, h = self.arange(m[0])
                for i in m[1:]:
                    l2, h2 = self.arange(i)
                    l, h = imul(l, h, l2, h2)
            if c > 0:
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            else:
                lo, hi = (None if lo is None or h is None else lo + c * h), (None if hi is None or l is None else hi + c * l)
            if lo is None and hi is None: return None, None
        return lo, hi
    # -- adding facts; returns False if contradictory
    def _touch(self):
        self._memo = {}
    def assume(self, c):
        """List of fact sets whose union is self and c (empty if contradictory)."""
        if c is True: return [self]
        if c is False: return []
        k = c[0]
        if k == 'and':
            cur = [self]
            for x in c[1:]:
                cur = [g for f in cur for g in f.assume(x)]
            return cur
        if k == 'or':
            out = []; f = self; acc = []
            # Disjoint split: c1 | (!c1 & c2) | ...
            base = [self]
            for x in c[1:]:
                nb = []
                for f in base:
                    out.extend(f.assume(x))
                    nb.extend(f.assume(c_not(x)))
                base = nb
            return out
        d = self.decide(c)
        if d is True: return [self]
        if d is False: return []
        f = self.copy(); f._touch()
        f._add(c)
        return [] if f.dead else [f]
    def _add(self, c):
        k = c[0]
        if k == 'bv':
            self.bvs = dict(self.bvs); self.bvs[c[1]] = c[2]; return
        p = self.norm(c[1])
        if k == 'ge': self._add_ge(p)
        elif k == 'eq': self._add_eq(p)
        elif k == 'ne': self._add_ne(p)
    def _add_ge(self, p):
        v = p.const()
        if v is not None:
            if v < 0: self.dead = True
            return
        # Divide by the gcd of the coefficients.
        g = 0
        from math import gcd
        for m, c in p.t.items():
            if m: g = gcd(g, abs(c))
        if g > 1:
            p = Poly({m: (c // g) for m, c in p.t.items() if c // g})
        # Single-atom bound?
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            i = ms[0][0]; c = p.t[ms[0]]; k = p.c0()
            lo, hi = self.arange(i)
            if c > 0:
                b = -(k // c)
                if lo is None or b > lo: lo = b
            else:
                b = k // (-c)
                if hi is None or b < hi: hi = b
            if lo is not None and hi is not None and lo > hi: self.dead = True; return
            self.rng = dict(self.rng); self.rng[i] = (lo, hi)
            if lo == hi: self._add_eq(A(ATOMS[i]) - lo)
            else: self._retighten()
            return
        if self._zero_sum(p, -1): return
        if -p in self.ges:
            self._add_eq(p); return
        self.ges = self.ges + (p,)
        self._retighten()
    def _zero_sum(self, p, sign):
        """A sum of non-negative terms that is at most zero: every term is zero."""
        if p.c0() != 0 or len(p.t) < 2: return False
        ms = []
        for m, c in p.t.items():
            if c * sign < 0: return False
            lo, _ = self.interval(Poly({m: 1}))
            if lo is None or lo < 0: return False
            ms.append(m)
        lin = [m for m in ms if len(m) == 1]
        if not lin: return False
        for m in lin:
            if self.dead: break
            self._add_eq(Poly({m: 1}))
        rest = self.norm(Poly({m: 1 for m in ms if len(m) > 1}))
        if rest.t and not self.dead: self.ges = self.ges + (-rest,)
        return True
    def _retighten(self):
        for n in self.nes:
            if self.dead: return
            lo, hi = self.interval(n)
            if lo == 0:
                self.nes = tuple(x for x in self.nes if x is not n)
                self._add_ge(n - 1)
            elif hi == 0:
                self.nes = tuple(x for x in self.nes if x is not n)
                self._add_ge(-n - 1)
    def _add_ne(self, p):
        v = p.const()
        if v is not None:
            if v == 0: self.dead = True
            return
        lo, hi = self.interval(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return
        if lo == 0 or self.prove_ge(p): self._add_ge(p - 1); return
        if hi == 0 or self.prove_ge(-p): self._add_ge(-p - 1); return
        self.nes = self.nes + (p,)
    def _add_eq(self, p):
        p = self.norm(p)
        v = p.const()
        if v is not None:
            if v != 0: self.dead = True
            return
        lo, hi = self.interval(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): self.dead = True; return
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, abs(c))
        if g > 1:
            if p.c0() % g: self.dead = True; return
            p = Poly({m: c // g for m, c in p.t.items()})
        if self._zero_sum(p, 1) or self._zero_sum(p, -1): return
        # byte + 256 * byte = const and the like: split by divisibility
        cand = None
        order = []
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1:
                a = ATOMS[m[0]]
                rest = p - Poly({m: c})
                if occurs(m[0], rest): continue
                # prefer structured / fresh atoms being eliminated in favour of symbols
                rank = {'sym': 1}.get(a.kind, 0)
                order.append((rank, -a.id, m, c))
        if order:
            order.sort()
            _, _, m, c = order[0]
            i = m[0]
            val = (Poly({m: c}) - p) * c   # c*x + rest = 0 -> x = -rest/c
            lo, hi = self.arange(i)
            sub = {k: subst_atom(v_, ATOMS[i], val) for k, v_ in self.sub.items()}
            sub[i] = val
            self.sub = sub
            self._nmemo = {}; self._memo = {}
            ges, nes = self.ges, self.nes
            self.ges = (); self.nes = ()
            rng = self.rng
            for g in ges:
                if self.dead: return
                self._add_ge(self.norm(g))
            for n in nes:
                if self.dead: return
                self._add_ne(self.norm(n))
            # ranges of atoms which are rewritten now
            for j, (l, h) in list(rng.items()):
                if self.dead: return
                q = self.norm(A(ATOMS[j]))
                if q.single() is not ATOMS[j]:
                    if l is not None: self._add_ge(q - l)
                    if self.dead: return
                    if h is not None: self._add_ge(C(h) - q)
            if not self.dead:
                if lo is not None: self._add_ge(self.norm(val) - lo)
                if not self.dead and hi is not None: self._add_ge(C(hi) - self.norm(val))
                a = ATOMS[i]
                if a.kind == 'div' and isinstance(a.args[1], int):
                    # the definition of the quotient
                    if not self.dead: self._add_ge(self.norm(a.args[0] - val * a.args[1]))
                    if not self.dead: self._add_ge(self.norm(val * a.args[1] + (a.args[1] - 1) - a.args[0]))
            # congruence: known values of atoms whose arguments are rewritten now
            for k in list(sub):
                if self.dead or k == i: continue
                at = ATOMS[k]
                if not at.deep or not occurs(i, at.args): continue
                na = subst_deep(at.args, self.norm)
                if na is at.args: continue
                q = rebuild(at, na)
                if isinstance(q, Poly) and k in self.sub:
                    d = self.norm(q) - self.norm(self.sub[k])
                    if d != ZERO: self._add_eq(d)
            return
        # No unit coefficient: keep as two inequalities.
        if p not in self.ges: self.ges = self.ges + (p,)
        if -p not in self.ges: self.ges = self.ges + (-p,)
    # -- entailment
    def decide(self, c):
        """True / False / None."""
        if c is True or c is False: return c
        k = c[0]
        if k == 'ge':
            p = self.norm(c[1])
            if self.prove_ge(p): return True
            if self.prove_ge(-p - 1): return False
            return None
        if k == 'eq' or k == 'ne':
            p = self.norm(c[1])
            v = p.const()
            if v is None:
                r = None
                lo, hi = self.interval(p)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): r = False
                elif p in self.nes or -p in self.nes: r = False
                elif self.prove_ge(p - 1) or self.prove_ge(-p - 1): r = False
                elif self.prove_ge(p) and self.prove_ge(-p): r = True
            else: r = (v == 0)
            if r is None: return None
            return r if k == 'eq' else not r
        if k == 'bv': 
            v = self.bvs.get(self.nkey(c[1]))
            return None if v is None else (v == c[2])
        if k == 'and':
            rs = [self.decide(x) for x in c[1:]]
            if any(r is False for r in rs): return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.decide(x) for x in c[1:]]
            if any(r is True for r in rs): return True
            return False if all(r is False for r in rs) else None
        raise AssertionError(c)
    def nkey(self, k): return subst_deep(k, self.norm) if has_poly(k) else k
    def proves(self, c):
        """Does every state of this fact set satisfy c (full, by refutation)?"""
        if self.decide(c) is True: return True
        if c is False: return self.infeasible()
        return all(f.infeasible() for f in self.assume(c_not(c)))
    def infeasible(self):
        return self.dead or self.prove_ge(C(-1))
    def prove_eq(self, a, b):
        return self.proves(eq(a - b))
    def prove_ge(self, p):
        p = self.norm(p)
        v = p.const()
        if v is not None and v >= 0: return True
        r = self._memo.get(p)
        if r is None:
            STATS['prove'] += 1
            r = self._prove_ge(p)
            self._memo[p] = r
        return r
    def _prove_ge(self, p):
        v = p.const()
        lo, hi = self.interval(p)
        if lo is not None and lo >= 0: return True
        if v is None and hi is not None and hi < 0 and False: return False
        if v is None:
            for g in self.ges:
                d = p - g
                l, _ = self.interval(d)
                if l is not None and l >= 0: return True
        return self._lp(p)
    def _lp(self, p):
        # facts and (-p - 1 >= 0) infeasible?
        goal = -p - 1
        rows = []
        seen = set()
        frontier = set()
        lin = set()     # LP variables: monomials
        def note(q):
            for m in q.t:
                if m and m not in lin:
                    lin.add(m); newm.append(m)
        newm = []
        rows.append(goal); note(goal)
        atoms = set()
        pend = list(self.ges)
        if not goal.t or goal.isconst():
            for g in pend:
                rows.append(g); note(g)
            pend = []
        for _round in range(6):
            for m in newm: atoms.update(m)
            newm = []
            rest = []
            changed = False
            for g in pend:
                ga = g.atoms()
                if ga & atoms:
                    rows.append(g); note(g); changed = True
                else: rest.append(g)
            pend = rest
            # lemmas for structured atoms
            for i in list(atoms):
                if i in seen: continue
                seen.add(i)
                at = ATOMS[i]
                if at.kind == 'div':
                    q, mm = at.args
                    x = A(at)
                    for r_ in (q - x * mm, x * mm + (mm - 1) - q):
                        r_ = self.norm(r_); rows.append(r_); note(r_); changed = True
                elif at.kind == 'divp':
                    q, mm = at.args
                    x = A(at)
                    for r_ in (q - x * mm, x * mm + mm - 1 - q):
                        r_ = self.norm(r_); rows.append(r_); note(r_); changed = True
                elif at.kind in LEMMAS:
                    for r_ in LEMMAS[at.kind](at, self):
                        r_ = self.norm(r_); rows.append(r_); note(r_); changed = True
            if not changed and not newm: break
        # prefix sums: monotonicity between related instances
        ps = [ATOMS[i] for i in atoms if ATOMS[i].kind == 'psum']
        for x in ps:
            for y in ps:
                if x is not y and x.args[0] == y.args[0]:
                    d = y.args[1] - x.args[1]
                    if self._cheap_ge(d - 1):
                        b, f = PSUM[x.args[0]]
                        fx = subst_atom(f, b, x.args[1])
                        r_ = self.norm(A(y) - A(x) - fx); rows.append(r_); note(r_)
                    elif self._cheap_ge(d):
                        r_ = A(y) - A(x); rows.append(r_)
        # product lemmas for nonlinear monomials
        nl = [m for m in lin if len(m) >= 2]
        if nl:
            lins = [goal] * (goal.deg() == 1) + [r_ for r_ in rows if r_ is not goal and r_.deg() == 1][:60]
            rngs = []
            factors = set()
            for m in nl:
                for i in set(m): factors.add(i)
            for i in factors:
                lo, hi = self.arange(i)
                if lo is not None: rngs.append(A(ATOMS[i]) - lo)
            mset = set(nl)
            extra = []
            for m in nl:
                if len(m) != 2: continue
                for (x, b) in ((m[0], m[1]), (m[1], m[0])):
                    blo, bhi = self.arange(b)
                    if blo is None or blo < 0: continue
                    for r_ in lins + rngs:
                        if (x,) in r_.t:
                            pr = self.norm(r_ * A(ATOMS[b]))
                            if all(len(mm) < 2 or mm in mset for mm in pr.t): extra.append(pr)
            rows.extend(extra[:200])
            for r_ in extra: note(r_)
        # LP assembly
        vars_ = {}
        shift = []
        free = []
        def var(m):
            v = vars_.get(m)
            if v is None:
                if len(m) == 1: lo, hi = self.arange(m[0])
                else: lo, hi = self.interval(Poly({m: 1}))
                if lo is not None and lo < -(1 << 70): lo = None
                v = vars_[m] = [len(vars_) + len(free), lo, hi]
                if lo is None: free.append(m)
            return v
        lines = []
        def addrow(q):
            # q >= 0  ->  -sum(c x) <= c0
            b = q.c0(); cs = []
            for m, c in q.t.items():
                if not m: continue
                j, lo, hi = var(m)
                if lo is None: cs.append((j, -c)); cs.append((j + 1, c))
                else:
                    b += c * lo
                    cs.append((j, -c))
            lines.append((b, cs))
        for q in rows: addrow(q)
        for m, (j, lo, hi) in list(vars_.items()):
            if hi is not None:
                if lo is None: lines.append((hi, [(j, 1), (j + 1, -1)]))
                else: lines.append((hi - lo, [(j, 1)]))
        nv = len(vars_) + len(free)
        txt = [f'{nv} {len(lines)}']
        for b, cs in lines:
            txt.append(f'{b} {len(cs)} ' + ' '.join(f'{j} {c}' for j, c in cs))
        t = '\n'.join(txt).encode()
        STATS['lp'] += 1
        r = _load_lp()(t, len(t))
        if r == 1: STATS['lp_infeasible'] += 1
        return r == 1
    def _cheap_ge(self, p):
        p = self.norm(p)
        lo, _ = self.interval(p)
        if lo is not None and lo >= 0: return True
        for g in self.ges:
            l, _ = self.interval(p - g)
            if l is not None and l >= 0: return True
        return False
    def show(self):
        out = [f'{show_atom(ATOMS[i])} = {v}' for i, v in self.sub.items()]
        out += [f'{p} >= 0' for p in self.ges] + [f'{p} != 0' for p in self.nes]
        out += [f'{show_atom(ATOMS[i])} in [{l},{h}]' for i, (l, h) in self.rng.items() if i not in self.sub]
        out += [f'{show_key(k)} = {v}' for k, v in self.bvs.items()]
        return '; '.join(out)

LEMMAS = {}
