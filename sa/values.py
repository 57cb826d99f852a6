"""Abstract values, program database and abstract memory of the analyser."""
import json
from num import *

MAXLEN = (1 << 47)      # no object is larger than this (address space)
MAXCOUNT = (1 << 40)    # no caller passes more items / parameter bytes than this

INTS = {'u8': (0, 255, 8), 'u16': (0, 65535, 16), 'u32': (0, 2**32 - 1, 32), 'u64': (0, 2**64 - 1, 64), 'u128': (0, 2**128 - 1, 128),
        'usize': (0, 2**64 - 1, 64), 'i8': (-128, 127, 8), 'i16': (-2**15, 2**15 - 1, 16), 'i32': (-2**31, 2**31 - 1, 32),
        'i64': (-2**63, 2**63 - 1, 64), 'i128': (-2**127, 2**127 - 1, 128), 'isize': (-2**63, 2**63 - 1, 64), 'char': (0, 0x10FFFF, 32)}

class Unsup(Exception):
    """The analysis does not support a construct: the current path is given up (never an alarm)."""

class Split(Exception):
    """The current operation needs a case distinction. alts: list of conditions or functions state -> None."""
    def __init__(self, alts): self.alts = alts

class V:
    """Immutable structured value with deep substitution support."""
    __slots__ = ('_h', 'deep')
    def parts(self): raise NotImplementedError
    def __hash__(self):
        h = getattr(self, '_h', None)
        if h is None:
            h = self._h = hash((type(self),) + self.parts())
        return h
    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.parts() == o.parts())
    def __ne__(self, o): return not self == o
    def subst(self, f):
        p = self.parts(); q = subst_deep(p, f)
        return self if p is q else type(self)(*q)
    def occurs(self, aid, memo): return occurs(aid, self.parts(), memo)
    def __repr__(self): return type(self).__name__ + show_arg(self.parts(), 0)

def defv(name, fields):
    fs = fields.split()
    src = f'''
class {name}(V):
    __slots__ = {tuple(fs)!r}
    def __init__(self, {', '.join(fs)}):
        {'; '.join(f'self.{f} = {f}' for f in fs)}
        self._h = None
        self.deep = has_poly(self.parts())
    def parts(self): return ({', '.join('self.' + f for f in fs)},)
'''
    ns = {'V': V, 'has_poly': has_poly}
    exec(src, ns)
    return ns[name]

Agg = defv('Agg', 'ty variant fields')        # struct / tuple / closure / enum value of known variant; ty: canonical type name
Opq = defv('Opq', 'ty key')                   # unknown value; ty: type id
Ptr = defv('Ptr', 'cell path')                # thin pointer
Slice = defv('Slice', 'cell path off len')    # fat pointer to elements of a Seq
Seq = defv('Seq', 'elty len base log')        # contents of an array / slice / buffer
BufV = defv('BufV', 'ty key seq')             # value of an opaque buffer type with modified contents
FnV = defv('FnV', 'callee')                   # function item (index into Prog.fns)
Dur = defv('Dur', 'nanos')                    # core::time::Duration
StrV = defv('StrV', 'key')
Uninit = defv('Uninit', 'tag')
UNINIT = Uninit(0)
It = defv('It', 'kind fields')                # natively modelled iterator

def tup(*fs): return Agg('tuple', 0, tuple(fs))
UNIT = Agg('tuple', 0, ())

class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.bodies = {b['id']: b for b in d['bodies']}
        self.roots = d['roots']
        self.consts = {c[0]: c[1] for c in d['consts']}
        self.features = d['features']
        self.fns = []
        self._fnidx = {}
        self._canon = {}
        self.cfgs = {}
        self.adt_by_path = {}
        for i, t in enumerate(self.types):
            if t.get('k') == 'adt': self.adt_by_path.setdefault(t['path'], i)
    def ty(self, i): return self.types[i]
    def canon(self, i):
        c = self._canon.get(i)
        if c is None:
            t = self.types[i]
            c = self._canon[i] = t.get('name') or t.get('k')
            if t.get('k') in ('never', 'bool', 'str'): c = self._canon[i] = t['k']
        return c
    def fn(self, callee):
        k = json.dumps(callee, sort_keys=True)
        i = self._fnidx.get(k)
        if i is None:
            i = self._fnidx[k] = len(self.fns); self.fns.append(callee)
        return i
    def root(self, path):
        return [r for r in self.roots if r['path'] == path]

class St:
    """One abstract state (a partition of the trace set)."""
    __slots__ = ('cells', 'F', 'res', 'ev', 'taint', 'n', 'spos', 'uni', 'dropped')
    def __init__(self):
        self.cells = {}; self.F = Facts(); self.res = {}; self.ev = (); self.taint = (); self.n = 0
        self.spos = ZERO; self.uni = (); self.dropped = ()
    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells); s.F = self.F; s.res = self.res; s.ev = self.ev; s.taint = self.taint; s.n = self.n
        s.spos = self.spos; s.uni = self.uni; s.dropped = self.dropped
        return s
