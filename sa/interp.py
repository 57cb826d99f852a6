"""Abstract interpreter for MIR: trace-partitioned, interprocedural by inlining, loops by invariants."""
import sys
from values import *
from num import *

sys.setrecursionlimit(100000)

LOOPS = {}     # star id -> list of alternatives (events of one iteration)
FRAME = [0]

class PanicRec:
    __slots__ = ('site', 'msg', 'st', 'chain', 'kind')
    def __init__(self, site, msg, st, chain, kind):
        self.site = site; self.msg = msg; self.st = st; self.chain = chain; self.kind = kind

class Frame:
    __slots__ = ('body', 'fid', 'parent', 'callsite')
    def __init__(self, body, parent, callsite=None):
        FRAME[0] += 1
        self.body = body; self.fid = FRAME[0]; self.parent = parent; self.callsite = callsite

class Loop:
    __slots__ = ('head', 'blocks')

class CFG:
    def __init__(self, body, unwind=False):
        bl = body['blocks']
        n = len(bl)
        self.succ = [self.succs(b['t']) + (self.cleanup(b['t']) if unwind else []) for b in bl]
        # reachable from 0 without unwind edges
        order = []; seen = set()
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        self.reach = seen
        pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]: pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; changed = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in seen:
            for s in self.succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b): self.irreducible = True; continue
                    L = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in L: continue
                        L.add(x); work.extend(pred[x])
        # liveness of locals at block entry
        self.borrowed = set()
        use = {}; deff = {}
        for b in seen:
            u, d = set(), set()
            def op(o):
                if o[0] in ('copy', 'move'): pl(o[1])
            def pl(p):
                if p[0] not in d: u.add(p[0])
                for e in p[1]:
                    if e[0] == 'idx' and e[1] not in d: u.add(e[1])
            def wr(p):
                if p[1]: pl(p)
                else: d.add(p[0])
            for s in bl[b]['s']:
                if s[0] == '=':
                    for o in rv_operands(s[2]): op(o)
                    for p in rv_places(s[2]): pl(p)
                    if s[2][0] in ('ref', 'rawptr'):
                        p = s[2][2] if s[2][0] == 'ref' else s[2][1]
                        if not any(e[0] == 'deref' for e in p[1]): self.borrowed.add(p[0])
                    wr(s[1])
                elif s[0] == 'setdiscr': pl(s[1])
                elif s[0] == 'assume': op(s[1])
            t = bl[b]['t']
            if t[0] == 'switch': op(t[1])
            elif t[0] == 'call':
                for a in t[2]: op(a)
                if isinstance(t[1], list): op(t[1])
                wr(t[3])
            elif t[0] == 'assert': op(t[1])
            elif t[0] == 'drop': pl(t[1])
            elif t[0] == 'return': u.add(0) if 0 not in d else None
            use[b] = u; deff[b] = d
        live = {b: set(use[b]) for b in seen}
        changed = True
        while changed:
            changed = False
            for b in reversed(rpo):
                o = set()
                for s in self.succ[b]: o |= live[s]
                nl = use[b] | (o - deff[b])
                if nl != live[b]: live[b] = nl; changed = True
        self.live = live
    @staticmethod
    def cleanup(t):
        if t[0] == 'call' and t[5] is not None: return [t[5]]
        return []
    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        if k == 'drop': return [t[2]] if not isinstance(t[2], list) else []
        return []

def rv_operands(rv):
    k = rv[0]
    if k == 'use': return [rv[1]]
    if k == 'repeat': return [rv[1]]
    if k == 'cast': return [rv[2]]
    if k == 'bin': return [rv[2], rv[3]]
    if k == 'un': return [rv[2]]
    if k == 'agg': return rv[3]
    return []
def rv_places(rv):
    if rv[0] == 'ref': return [rv[2]]
    if rv[0] == 'rawptr': return [rv[1]]
    if rv[0] == 'discr': return [rv[1]]
    return []

class Interp:
    def __init__(self, prog, hooks=None, contracts=None):
        self.P = prog
        self.panics = []
        self.stuck = []          # (message, chain)
        self.seglog = []         # loop summaries
        self.hooks = hooks       # property specific callbacks
        self.contracts = contracts or {}
        self.stats = {'calls': 0, 'stmts': 0, 'blocks': 0, 'loops': 0, 'paths': 0, 'asserts': 0}
        self.functions = set()
        self.callsites = set()
        self.post = {}           # ADT path -> function normalising an expanded value
        self.inv = {}            # ADT path -> list of invariants
        self.ext = {}            # external cell id -> (kind, type id)
        self.steps = 0
        self.max_steps = 400000
        self.loopinfo = []
        self.unwinding = False
        self.log_on = None
        self.abstract_port = True
        self.track_drops = False
        self.ub = []
        import models
        self.models = models
    # ------------------------------------------------------------ types
    def ty(self, i): return self.P.types[i]
    def int_of(self, i):
        t = self.P.types[i]
        if t.get('k') == 'int': return INTS[t['name']]
        if t.get('k') == 'char': return INTS['char']
        return None
    def is_dur(self, t): return t.get('k') == 'adt' and t['path'] == 'core::time::Duration'
    # ------------------------------------------------------------ fresh values
    def mk(self, tid, key):
        t = self.P.types[tid]
        k = t.get('k')
        if k == 'int' or k == 'char':
            lo, hi, _ = INTS[t['name'] if k == 'int' else 'char']
            return sym(key, lo, hi)
        if k == 'bool': return ('bv', key, True)
        if k == 'tuple':
            return Agg('tuple', 0, tuple(self.mk(x, (key, i)) for i, x in enumerate(t['tys'])))
        if k == 'ref' or k == 'ptr':
            p = self.P.types[t['ty']]
            cell = ('x', key)
            if p.get('k') == 'slice':
                self.ext[cell] = ('seq', p['ty'])
                return Slice(cell, (), ZERO, self.ext_len(cell))
            if p.get('k') == 'str': return StrV(key)
            if p.get('k') in ('dyn', 'other'): return Opq(tid, key)
            self.ext[cell] = ('val', t['ty'])
            return Ptr(cell, ())
        if k == 'array':
            n = self.const_usize(t['len'])
            return Seq(self.P.canon(t['ty']), n, ('sym', key, t['ty']), ())
        if k == 'adt':
            if t['path'] == 'core::time::Duration': return Dur(sym((key, 'ns'), 0, (2**64) * 10**9 - 1))
            if t['path'] == 'core::marker::PhantomData': return Agg(t['name'], 0, ())
        return Opq(tid, key)
    def ext_len(self, cell): return sym((cell, 'len'), 0, MAXLEN)
    def const_usize(self, c):
        if isinstance(c, dict):
            if c['k'] == 'int': return C(int(c['v']))
            if c['k'] == 'sym': return sym(('const', c['name']), 0, MAXLEN)
        raise Unsup(f'constant {c}')
    # ------------------------------------------------------------ conditions
    def truth(self, st, c):
        d = st.F.decide(c)
        if d is None: raise Split([c, c_not(c)])
        return d
    def apply_split(self, st, alts):
        out = []
        for a in alts:
            s = st.copy()
            if callable(a):
                if a(s) is not False: out.append(s)
            else:
                for f in s.F.assume(a):
                    s2 = s.copy(); s2.F = f; out.append(s2)
        return out
    # ------------------------------------------------------------ memory
    def cell(self, st, cid):
        v = st.cells.get(cid)
        if v is None:
            e = self.ext.get(cid)
            if e is None:
                ncid = st.F.nkey(cid)
                if ncid != cid:
                    v = st.cells.get(ncid)
                    if v is not None: return v
                    e = self.ext.get(ncid)
                if e is None:
                    e = self.ext_sibling(cid)
                if e is None: raise Unsup(f'dangling cell {show_key(cid)}')
            if e[0] == 'seq':
                v = Seq(self.P.canon(e[1]), self.ext_len(cid), ('sym', cid, e[1]), ())
            elif e[0] == 'const': v = e[1]
            else: v = self.mk(e[1], (cid, '*'))
            st.cells[cid] = v
        return v
    def ext_sibling(self, cid): return None
    def expand(self, st, v, variant=None):
        """Opq struct / enum value -> Agg."""
        t = self.P.types[v.ty]
        if t.get('k') != 'adt' or t['kind'] == 'union': raise Unsup(f'field of opaque {self.P.canon(v.ty)}')
        if t['kind'] == 'enum':
            if variant is None: variant = self.variant_of(st, v)
        else: variant = 0
        fs = t['variants'][variant]['fields']
        a = Agg(t['name'], variant, tuple(self.mk(f['ty'], (v.key, variant, i)) for i, f in enumerate(fs)))
        p = self.post.get(t['path'])
        if p is not None: a = p(self, st, a)
        self.assume_all(st, self.inv_conds(t, a))
        return a
    def assume_all(self, st, conds):
        for c in conds:
            r = st.F.assume(c)
            if len(r) == 1: st.F = r[0]
            elif len(r) > 1:
                def setf(f):
                    def g(s): s.F = f
                    return g
                raise Split([setf(f) for f in r])
    def inv_conds(self, t, a):
        return [c for iv in self.inv.get(t['path'], ()) for c in iv(self, a)] if self.inv else []
    def variant_of(self, st, v):
        k = st.F.nkey(v.key)
        r = st.res.get(k)
        if r is not None: return r
        t = self.P.types[v.ty]
        if t.get('k') != 'adt' or t['kind'] != 'enum': raise Unsup('discriminant of ' + self.P.canon(v.ty))
        def setr(i):
            def f(s):
                s.res = dict(s.res); s.res[k] = i
            return f
        alts = []
        for i, var in enumerate(t['variants']):
            if any(self.P.types[f['ty']].get('k') == 'never' for f in var['fields']): continue
            alts.append(setr(i))
        raise Split(alts)
    def step_read(self, st, v, e):
        k = e[0]
        if k == 'f':
            if isinstance(v, Opq): v = self.expand(st, v, e[2] if len(e) > 2 else None)
            if isinstance(v, Agg):
                if e[1] >= len(v.fields): raise Unsup('field index')
                return v.fields[e[1]]
            if isinstance(v, It) and v.kind == 'map' and e[1] < 2: return v.fields[e[1]]     # Map { iter, f }
            if isinstance(v, It): raise Unsup('field of a modelled iterator ' + v.kind)
            raise Unsup(f'field of {type(v).__name__} {v}')
        if k == 'i':
            if isinstance(v, Seq): return self.seq_get(st, v, e[1])
            if isinstance(v, Opq):
                pass
            raise Unsup(f'index of {type(v).__name__}')
        if k == 'buf':
            if isinstance(v, BufV): return v.seq
            if isinstance(v, Opq): return Seq('u8', sym((v.key, 'buflen'), 0, MAXLEN), ('sym', (v.key, 'buf'), None), ())
            if isinstance(v, Seq): return v
            raise Unsup(f'buffer of {type(v).__name__}')
        if k == 'sub':
            if isinstance(v, Seq): return Seq(v.elty, e[2], ('view',), ((('cp'), ZERO, e[2], v, e[1]),))
            raise Unsup('subslice')
        raise Unsup(f'projection {k}')
    def read(self, st, loc):
        cid, path = loc
        v = self.cell(st, cid)
        for e in path: v = self.step_read(st, v, e)
        return v
    def write(self, st, loc, val):
        cid, path = loc
        if not path: st.cells[cid] = val; return
        st.cells[cid] = self.upd(st, self.cell(st, cid) if (cid in st.cells or cid[0] != 'L') else UNINIT, path, 0, val)
    def upd(self, st, v, path, i, val):
        if i == len(path): return val
        e = path[i]
        if e[0] == 'f':
            if isinstance(v, Opq): v = self.expand(st, v, e[2] if len(e) > 2 else None)
            if isinstance(v, Agg):
                fs = list(v.fields)
                if e[1] >= len(fs): raise Unsup('field index')
                fs[e[1]] = self.upd(st, fs[e[1]], path, i + 1, val)
                return Agg(v.ty, v.variant, tuple(fs))
            raise Unsup(f'write to field of {type(v).__name__}')
        if e[0] == 'i':
            if not isinstance(v, Seq): raise Unsup(f'write to element of {type(v).__name__}')
            if i + 1 == len(path): nv = val
            else: nv = self.upd(st, self.seq_get(st, v, e[1]), path, i + 1, val)
            return self.seq_set(st, v, e[1], nv)
        if e[0] == 'buf':
            seq = self.step_read(st, v, e)
            ns = self.upd(st, seq, path, i + 1, val)
            if isinstance(v, BufV): return BufV(v.ty, v.key, ns)
            if isinstance(v, Opq): return BufV(v.ty, v.key, ns)
            return ns
        raise Unsup(f'write through {e[0]}')
    # ------------------------------------------------------------ sequences
    def seq_set(self, st, q, idx, val):
        log = q.log
        idx = st.F.norm(idx)
        if isinstance(val, Uninit): raise Unsup('moving out of an element')
        # extend or replace the newest entry
        if log and log[-1][0] == 'vals':
            _, off, vs = log[-1]
            d = (idx - off).const()
            if d is not None:
                if 0 <= d < len(vs):
                    return Seq(q.elty, q.len, q.base, log[:-1] + (('vals', off, vs[:d] + (val,) + vs[d + 1:]),))
                if d == len(vs):
                    return Seq(q.elty, q.len, q.base, log[:-1] + (('vals', off, vs + (val,)),))
                if d == -1:
                    return Seq(q.elty, q.len, q.base, log[:-1] + (('vals', idx, (val,) + vs),))
        return Seq(q.elty, q.len, q.base, log + (('vals', idx, (val,)),))
    def seq_copy(self, st, q, off, n, src, soff):
        """q[off..off+n] = src[soff..soff+n]"""
        n = st.F.norm(n)
        c = n.const()
        if c == 0: return q
        if c is not None and c <= 16:
            try:
                vs = [self.seq_get(st, src, soff + i) for i in range(c)]
                for i, v in enumerate(vs): q = self.seq_set(st, q, off + i, v)
                return q
            except Unsup: pass
        return Seq(q.elty, q.len, q.base, q.log + (('cp', st.F.norm(off), n, src, st.F.norm(soff)),))
    def seq_copy_raw(self, st, q, off, n, src, soff):
        n = st.F.norm(n)
        if n.const() == 0: return q
        return Seq(q.elty, q.len, q.base, q.log + (('cp', st.F.norm(off), n, src, st.F.norm(soff)),))
    def ub_check(self, st, fr, c, msg):
        self.stats['asserts'] += 1
        if st.F.decide(c) is True: return
        bad = [f for f in st.F.assume(c_not(c)) if not f.infeasible()]
        if bad:
            s = st.copy(); s.F = bad[0]
            self.panics.append(PanicRec(self.site(fr), 'undefined behaviour: ' + msg, s, self.chain(fr), 'ub'))
        r = st.F.assume(c)
        if len(r) == 1: st.F = r[0]
    def site(self, fr):
        s = fr
        while s is not None and not s.body['local']: s = s.parent
        return s.body['path'] if s else fr.body['path']
    def ev_drop(self, st, p):
        if not self.track_drops: return
        if isinstance(p, Slice): v = self.models.content(self, st, p)
        else:
            try: v = self.read(st, (p.cell, p.path))
            except Unsup as e: v = ('unknown', str(e))
            if isinstance(v, Seq): v = self.models.content(self, st, Slice(p.cell, p.path, ZERO, v.len))
        st.ev = st.ev + (('drop', v),)
    def ev_move(self, st, cell, path, v):
        if self.track_drops: st.ev = st.ev + (('move', cell, path),)
    def u64_ty(self):
        for i, t in enumerate(self.P.types):
            if t.get('k') == 'int' and t['name'] == 'u64': return i
        raise Unsup('u64')
    def base_get(self, st, q, idx):
        b = q.base
        if b[0] == 'sym':
            key = (b[1], 'el', idx)
            if b[2] is None: return sym(key, 0, 255)
            return self.mk(b[2], key)
        if b[0] == 'const':
            c = st.F.norm(idx).const()
            if c is not None:
                if 0 <= c < len(b[1]): return b[1][c]
                raise Unsup('constant index out of range')
            vs = b[1]
            if all(isinstance(v, Poly) and v.const() is not None for v in vs):
                if len(vs) <= 8:
                    raise Split([eq(idx - i) for i in range(len(vs))])
                lo = min(v.const() for v in vs); hi = max(v.const() for v in vs)
                return A(atom('tab', (tuple(v.const() for v in vs), st.F.norm(idx)), lo, hi))
            if len(vs) <= 8: raise Split([eq(idx - i) for i in range(len(vs))])
            raise Unsup('symbolic index into constant table')
        if b[0] == 'rep': return b[1]
        if b[0] == 'fn':
            return sym((b, 'el', idx), 0, 255)
        if b[0] == 'uninit': return UNINIT
        raise Unsup(f'base {b[0]}')
    def seq_get(self, st, q, idx):
        F = st.F
        idx = F.norm(idx)
        for e in reversed(q.log):
            if e[0] == 'vals':
                off, vs = e[1], e[2]
                d = F.norm(idx - off)
                c = d.const()
                if c is not None:
                    if 0 <= c < len(vs): return vs[c]
                    continue
                if F.prove_ge(-d - 1) or F.prove_ge(d - len(vs)): continue
                ins = [eq(d - i) for i in range(len(vs))]
                undec = [x for x in ins if F.decide(x) is not False]
                if not undec: continue
                if len(undec) == 1 and F.decide(undec[0]) is True: return vs[ins.index(undec[0])]
                raise Split(undec + [c_and(*[c_not(x) for x in undec])])
            elif e[0] == 'cp':
                _, off, n, src, soff = e
                d = idx - off
                if F.prove_ge(-d - 1) or F.prove_ge(d - n): continue
                if F.prove_ge(d) and F.prove_ge(n - 1 - d): return self.seq_get(st, src, soff + d)
                inside = c_and(ge(d), ge(n - 1 - d))
                raise Split([inside, ge(-d - 1), ge(d - n)])
            elif e[0] == 'loop':
                r = self.loop_disjoint(st, e, idx, ONE)
                if r: continue
                _, kv, cnt, ents = e
                x0 = ents[0]
                if len(ents) == 1 and x0[0] == 'vals' and len(x0[2]) == 1 and F.norm(subst_atom(x0[1], kv, A(kv) + 1) - x0[1]).const() == 1:
                    j = F.norm(idx - subst_atom(x0[1], kv, ZERO))      # the iteration that wrote this element
                    if not (F.prove_ge(j) and F.prove_ge(cnt - 1 - j)):
                        if F.prove_ge(-j - 1) or F.prove_ge(j - cnt): continue
                        raise Split([c_and(ge(j), ge(cnt - 1 - j)), ge(-j - 1), ge(j - cnt)])
                    return subst_deep(x0[2][0], lambda p: subst_atom(p, kv, j))
                raise Unsup('read from a region written by a loop')
            elif e[0] == 'ph':
                e[2].append((F, idx, ONE)); continue
            else: raise Unsup(f'log entry {e[0]}')
        return self.base_get(st, q, idx)
    def loop_disjoint(self, st, e, off, n):
        """Is [off, off+n) disjoint from everything the loop entry wrote?"""
        _, kv, cnt, ents = e
        k = fresh('k', 0, MAXLEN)
        ka = k.single()
        fs = st.F.assume(lt(k, cnt))
        for f in fs:
            for x in ents:
                x = subst_deep(x, lambda p: subst_atom(p, kv, k))
                if x[0] == 'vals': a, l = x[1], C(len(x[2]))
                elif x[0] == 'cp': a, l = x[1], x[2]
                else: return False
                if not (f.proves(le(a + l, off)) or f.proves(le(off + n, a))): return False
        return True
    def one_of(self, F, p, js):
        """The value of p, which is one of js."""
        c = F.norm(p).const()
        if c is not None: return c
        alts = []
        for j in js:
            d = F.decide(eq(p - j))
            if d is True: return j
            if d is None: alts.append(eq(p - j))
        raise Split(alts)
    def seq_extract(self, st, q, off, n):
        """Canonical contents of q[off..off+n]: tuple of segments
        ('v', values) | ('c', base, offset, len) | ('r', value, len) | ('l', kvar, count, segments)"""
        segs = self._ext(st, q, len(q.log) - 1, st.F.norm(off), st.F.norm(off + n))
        return self.seg_merge(st, segs)
    def _ext(self, st, q, i, a, b):
        F = st.F
        d = F.norm(b - a)
        if d.const() == 0 or F.prove_ge(-d): return []
        while i >= 0:
            e = q.log[i]
            if e[0] == 'vals': s, t = e[1], e[1] + len(e[2])
            elif e[0] == 'cp': s, t = e[1], e[1] + e[2]
            elif e[0] == 'loop': s, t = self.loop_extent(st, e)
            elif e[0] == 'ph':
                e[2].append((F, a, b - a)); i -= 1; continue
            else: raise Unsup(f'log entry {e[0]}')
            if F.prove_ge(a - t) or F.prove_ge(s - b): i -= 1; continue
            if e[0] == 'loop' and self.loop_disjoint(st, e, a, b - a): i -= 1; continue
            # relative order of the end points
            if not F.prove_ge(t - s - 1):
                # possibly empty entry
                if self.truth(st, ge(s - t)): i -= 1; continue
            if self.truth(st, ge(a - t)) or self.truth(st, ge(s - b)): i -= 1; continue
            lo = a if self.truth(st, ge(a - s)) else s
            hi = b if self.truth(st, ge(t - b)) else t
            left = self._ext(st, q, i - 1, a, lo)
            right = self._ext(st, q, i - 1, hi, b)
            if e[0] == 'vals':
                c1 = self.one_of(F, lo - s, range(len(e[2]))); c2 = self.one_of(F, hi - s, range(1, len(e[2]) + 1))
                mid = [('v', tuple(e[2][c1:c2]))]
            elif e[0] == 'cp':
                src, soff = e[3], e[4]
                mid = self._ext(st, src, len(src.log) - 1, F.norm(soff + lo - s), F.norm(soff + hi - s))
            else:
                if not (F.prove_eq(lo, s) and F.prove_eq(hi, t)): raise Unsup('partial read of a region written by a loop')
                mid = [self.loop_seg(st, e)]
            return left + mid + right
        # base
        n = F.norm(b - a)
        bs = q.base
        if bs[0] in ('const',) or (n.const() is not None and n.const() <= 8 and bs[0] in ('sym', 'fn')):
            c = n.const()
            if c is None:
                lo, hi = F.interval(n)
                if hi is not None and lo is not None and hi - lo <= 8: raise Split([eq(n - j) for j in range(lo, hi + 1)])
                if bs[0] == 'const' and len(bs[1]) <= 16: raise Split([eq(n - j) for j in range(0, len(bs[1]) + 1)])
                raise Unsup('symbolic part of a constant')
            return [('v', tuple(self.base_get(st, q, a + j) for j in range(c)))]
        if bs[0] == 'rep': return [('r', bs[1], n)]
        return [('c', bs, a, n)]
    def loop_extent(self, st, e):
        _, kv, cnt, ents = e
        x0 = ents[0]
        k = A(kv)
        F1 = st.F
        fs = F1.assume(c_and(ge(k), lt(k, cnt)))
        F2 = fs[0] if fs else F1
        s = x0[1]; t = s
        for x in ents:
            if not F2.prove_eq(x[1], t): raise Unsup('loop writes are not contiguous')
            t = t + (len(x[2]) if x[0] == 'vals' else x[2])
        s1 = subst_atom(s, kv, k + 1)
        if not F2.prove_eq(s1, t): raise Unsup('loop writes do not tile')
        return st.F.norm(subst_atom(s, kv, ZERO)), st.F.norm(subst_atom(s, kv, cnt))
    def loop_seg(self, st, e):
        _, kv, cnt, ents = e
        segs = []
        fs = st.F.assume(c_and(ge(A(kv)), lt(A(kv), cnt)))
        s2 = st.copy()
        if fs: s2.F = fs[0]
        for x in ents:
            if x[0] == 'vals': segs.append(('v', x[2]))
            else: segs.extend(self._ext(s2, x[3], len(x[3].log) - 1, x[4], x[4] + x[2]))
        return ('l', kv, cnt, tuple(self.seg_merge(s2, segs)))
    def seg_len(self, s):
        if s[0] == 'v': return C(len(s[1]))
        if s[0] == 'c': return s[3]
        if s[0] == 'r': return s[2]
        if s[0] == 'l':
            n = ZERO
            for x in s[3]: n = n + self.seg_len(x)
            if not occurs(s[1].id, n): return n * s[2]
            return mk_psum(self.psum_template(s[1], n), s[2])
        raise AssertionError(s)
    def psum_template(self, kv, poly):
        b = atom('bound', (0,), 0, None)
        f = subst_atom(poly, kv, A(b))
        tid = ('ps', f)
        PSUM[tid] = (b, f)
        return tid
    def seg_merge(self, st, segs):
        out = []
        for s in segs:
            if s[0] == 'v' and not s[1]: continue
            if out:
                p = out[-1]
                if p[0] == 'v' and s[0] == 'v': out[-1] = ('v', p[1] + s[1]); continue
                if p[0] == 'c' and s[0] == 'c' and p[1] == s[1] and st.F.prove_eq(p[2] + p[3], s[2]):
                    out[-1] = ('c', p[1], p[2], st.F.norm(p[3] + s[3])); continue
            out.append(s)
        return tuple(out)
    # ------------------------------------------------------------ places and operands
    def lcell(self, fr, n): return ('L', fr.fid, n)
    def place(self, st, fr, pl):
        """Location: ('loc', cell, path) or ('slice', Slice)."""
        loc = (self.lcell(fr, pl[0]), ())
        sl = None
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == 'deref':
                v = self.read(st, loc) if sl is None else None
                if v is None: raise Unsup('deref of slice')
                variant = None
                if isinstance(v, Ptr): loc = (v.cell, v.path)
                elif isinstance(v, Slice): sl = v
                elif isinstance(v, StrV): loc = (('str', v.key), ()); 
                elif isinstance(v, Opq):
                    t = self.P.types[v.ty]
                    raise Unsup('deref of opaque ' + self.P.canon(v.ty))
                else: raise Unsup(f'deref of {type(v).__name__}')
            elif k == 'f':
                if sl is not None: raise Unsup('field of slice')
                loc = (loc[0], loc[1] + ((('f', e[1]) if variant is None else ('f', e[1], variant)),))
                variant = None
            elif k == 'v': variant = e[1]
            elif k == 'idx':
                i = self.read(st, (self.lcell(fr, e[1]), ()))
                if sl is not None: loc = (sl.cell, sl.path + (('i', st.F.norm(sl.off + i)),)); sl = None
                else: loc = (loc[0], loc[1] + (('i', st.F.norm(i)),))
            elif k == 'cidx':
                off, mn, fe = e[1], e[2], e[3]
                if sl is not None:
                    i = sl.off + (sl.len - off if fe else C(off))
                    loc = (sl.cell, sl.path + (('i', st.F.norm(i)),)); sl = None
                else:
                    if fe:
                        v = self.read(st, loc)
                        i = v.len - off
                    else: i = C(off)
                    loc = (loc[0], loc[1] + (('i', i),))
            elif k == 'sub':
                a, b, fe = e[1], e[2], e[3]
                if sl is not None:
                    end = sl.len - b if fe else C(b)
                    sl = Slice(sl.cell, sl.path, sl.off + a, st.F.norm(end - a))
                else:
                    v = self.read(st, loc)
                    end = v.len - b if fe else C(b)
                    sl = Slice(loc[0], loc[1], C(a), st.F.norm(end - a))
            else: raise Unsup(f'projection {k}')
        if sl is not None: return ('slice', sl)
        return ('loc', loc)
    def read_place(self, st, fr, pl):
        p = self.place(st, fr, pl)
        if p[0] == 'slice': return self.slice_val(st, p[1])
        return self.read(st, p[1])
    def slice_val(self, st, sl):
        q = self.read(st, (sl.cell, sl.path))
        if not isinstance(q, Seq): raise Unsup('slice of non sequence')
        return self.sub_seq(st, q, sl.off, sl.len)
    def sub_seq(self, st, q, off, n):
        if st.F.norm(off).const() == 0 and st.F.norm(n - q.len).const() == 0: return q
        return Seq(q.elty, n, ('none',), (('cp', ZERO, n, q, off),))
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'copy' or k == 'move':
            v = self.read_place(st, fr, o[1])
            if isinstance(v, Uninit): raise Unsup('use of uninitialised value')
            return v
        if k == 'const': return self.const(st, fr, o[1])
        if k == 'rtc':   # runtime check flags (overflow / UB checks): debug semantics
            return True if 'Overflow' in str(o) else False
        raise Unsup(f'operand {k}')
    def const(self, st, fr, c):
        k = c['k']
        if k == 'int':
            t = self.P.types[c['ty']]
            v = int(c['v'])
            if t.get('k') == 'bool': return bool(v)
            if t.get('k') == 'int' and INTS[t['name']][0] < 0:
                b = INTS[t['name']][2]
                if v >= 1 << (b - 1): v -= 1 << b
            if t.get('k') in ('int', 'char'): return C(v)
            if t.get('k') == 'adt': return self.enum_from_discr(c['ty'], v)
            return C(v)
        if k == 'uarr':
            t = self.P.types[c['ty']]
            vs = tuple(C(x) for x in c['v'])
            et = self.P.types[t['ty']]
            if et.get('k') == 'bool': vs = tuple(bool(x) for x in c['v'])
            return Seq(self.P.canon(t['ty']), C(len(vs)), ('const', vs), ())
        if k == 'agg':
            t = self.P.types[c['ty']]
            fs = tuple(self.const(st, fr, x) for x in c['fields'])
            if t.get('k') == 'array':
                return Seq(self.P.canon(t['ty']), C(len(fs)), ('const', fs), ())
            if t.get('k') == 'tuple': return Agg('tuple', 0, fs)
            if t.get('k') == 'adt':
                if t['path'] == 'core::time::Duration': return self.dur_const(c)
                return Agg(t['name'], c['variant'] or 0, fs)
            if t.get('k') == 'closure': return Agg(t['name'], 0, fs)
            raise Unsup('constant aggregate ' + self.P.canon(c['ty']))
        if k == 'ref' or k == 'static':
            if k == 'ref':
                v = self.const(st, fr, c['to'])
                cid = ('k', hash_const(c))
                self.ext[cid] = ('const', v)
            else:
                cid = ('static', c.get('id') or c.get('def') or c.get('name') or str(c))
                if cid not in self.ext:
                    d = self.P.consts.get(c.get('def') or c.get('name'))
                    if d is not None: self.ext[cid] = ('const', self.const(st, fr, d))
                    else:
                        t = self.P.types[c['ty']]
                        if t.get('k') in ('ref', 'ptr'): self.ext[cid] = ('val', t['ty'])
                v = None
            t = self.P.types[c['ty']]
            pt = self.P.types[t['ty']]
            if pt.get('k') == 'slice':
                if v is None: v = self.cell(st, cid)
                return Slice(cid, (), ZERO, v.len)
            return Ptr(cid, ())
        if k == 'str': return StrV(c['v'])
        if k == 'bytes':
            vs = tuple(C(x) for x in c['v']); cid = ('k', hash_const(c))
            self.ext[cid] = ('const', Seq('u8', C(len(vs)), ('const', vs), ()))
            t = self.P.types[c['ty']]
            if t.get('k') == 'ref' and self.P.types[t['ty']].get('k') == 'array': return Ptr(cid, ())
            return Slice(cid, (), ZERO, C(len(vs)))
        if k == 'zst':
            t = self.P.types[c['ty']]
            if t.get('k') == 'fndef': return FnV(self.P.fn(t['callee']))
            if t.get('k') == 'closure': return Agg(t['name'], 0, ())
            if t.get('k') == 'adt' and t['kind'] != 'enum': return Agg(t['name'], 0, tuple(UNIT for _ in t['variants'][0]['fields']))
            if t.get('k') == 'tuple': return UNIT
            if t.get('k') == 'array': return Seq(self.P.canon(t['ty']), ZERO, ('const', ()), ())
            return Opq(c['ty'], ('zst',))
        if k == 'sym':
            b = c.get('pbody') if c.get('pbody') is not None else c.get('cbody')
            t = self.P.types[c['ty']]
            if b is not None:
                return self.const_body(st, fr, b, c)
            d = self.P.consts.get(c.get('def') or c['name'])
            if d is not None and d['k'] != 'sym': return self.const(st, fr, d)
            lo = hi = None
            key = ('const', c['name'])
            if t.get('k') == 'int' and c['name'].isidentifier() and t['name'] == 'usize': return sym(key, 0, MAXLEN)
            return self.mk(c['ty'], key)
        if k == 'opaque': return self.mk(c['ty'], ('opaque', hash_const(c)))
        raise Unsup(f'constant {k}')
    def const_body(self, st, fr, b, c):
        """Evaluate a constant's / promoted's body."""
        key = ('kb', b, tuple(c.get('args') or ()))
        # (a panic in a constant is a compile-time error)
        np = len(self.panics)
        outs = self.run_body(st.copy(), self.P.bodies[b], [], fr, None)
        del self.panics[np:]
        rets = [o for o in outs if o[1] == 'ret']
        if len(rets) != 1: raise Unsup('constant evaluation')
        s2, _, v = rets[0]
        # keep cells the value may point to
        for cid, x in s2.cells.items():
            if cid not in st.cells: st.cells[cid] = x
        st.F = s2.F
        return v
    def enum_from_discr(self, tid, v):
        t = self.P.types[tid]
        for i, var in enumerate(t['variants']):
            if int(var['discr']) == v: return Agg(t['name'], i, ())
        raise Unsup('enum constant')
    def dur_const(self, c):
        def ints(x):
            if isinstance(x, dict):
                if x.get('k') == 'int': yield int(x['v'])
                for f in x.get('fields', []) or []: yield from ints(f)
        l = list(ints(c))
        return Dur(C(l[0] * 10**9 + l[1]))
    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, p, info):
        """Reduce an integer value into the range of the type."""
        lo, hi, bits = info
        p = st.F.norm(p)
        l, h = st.F.interval(p)
        if l is not None and h is not None and l >= lo and h <= hi: return p
        if st.F.prove_ge(p - lo) and st.F.prove_ge(C(hi) - p): return p
        m = 1 << bits
        if lo == 0: return p - self.div(st, p, m) * m
        q = p - lo
        return q - self.div(st, q, m) * m + lo
    def div(self, st, p, m):
        p = st.F.norm(p)
        q = {}; r = {}
        for mo, c in p.t.items():
            d, e = divmod(c, m) if mo == () else ((c // m, 0) if c % m == 0 else (0, c))
            if d: q[mo] = d
            if e: r[mo] = e
        r = Poly(r)
        l, h = st.F.interval(r)
        if l is not None and h is not None and l // m == h // m: return Poly(q) + (l // m)
        if st.F.prove_ge(r) and st.F.prove_ge(C(m - 1) - r): return Poly(q)
        return mk_div(p, m)
    def in_range(self, st, p, info):
        """Condition that p is representable."""
        lo, hi, _ = info
        return c_and(ge(p - lo), ge(C(hi) - p))
    def int_of_bool(self, st, b):
        return C(1) if self.truth(st, b) else ZERO
    def as_int(self, st, v):
        if isinstance(v, Poly): return v
        if v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'and', 'or', 'bv')):
            return self.int_of_bool(st, v)
        if isinstance(v, Agg) and not v.fields: return None
        raise Unsup(f'integer expected, got {type(v).__name__}')
    @staticmethod
    def is_bool(v): return v is True or v is False or (isinstance(v, tuple) and len(v) > 0 and v[0] in ('ge', 'eq', 'ne', 'and', 'or', 'bv'))
    def opty(self, fr, o):
        """Type id of an operand."""
        if o[0] == 'const': return o[1].get('ty')
        if o[0] in ('copy', 'move'):
            l, proj = o[1]
            if not proj: return fr.body['locals'][l]
            last = proj[-1]
            if last[0] == 'f': return last[2]
            t = fr.body['locals'][l]
            for e in proj:
                tt = self.P.types[t]
                if e[0] == 'deref': t = tt.get('ty')
                elif e[0] == 'f': t = e[2]
                elif e[0] in ('idx', 'cidx'): t = tt.get('ty')
                elif e[0] == 'v': pass
                else: return None
                if t is None: return None
            return t
        return None
    def binop(self, st, fr, op, a, b, ta, tb):
        if self.is_bool(a) or self.is_bool(b):
            if op == 'BitAnd': return c_and(a, b)
            if op == 'BitOr': return c_or(a, b)
            if op in ('Eq', 'BitXor', 'Ne'):
                same = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                return same if op == 'Eq' else c_not(same)
            raise Unsup(f'boolean {op}')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp') and isinstance(a, Poly) and isinstance(b, Poly):
            if op == 'Eq': return eq(a - b)
            if op == 'Ne': return ne(a - b)
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return lt(b, a)
            if op == 'Ge': return le(b, a)
            raise Unsup('Cmp')
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if op == 'Offset' and isinstance(a, Ptr) and a.path and a.path[-1][0] == 'i':
                return Ptr(a.cell, a.path[:-1] + (('i', st.F.norm(a.path[-1][1] + b)),))
            raise Unsup(f'{op} on {type(a).__name__}')
        info = self.int_of(ta)
        if info is None: raise Unsup(f'{op} type')
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            p = a + b if op[0] == 'A' else a - b if op[0] == 'S' else a * b
            ok = self.in_range(st, p, info)
            d = st.F.decide(ok)
            if d is True: return tup(p, False)
            if d is False: return tup(self.wrap(st, p, info), True)
            # The flag is checked by the following assert; keep the exact value on the success side.
            raise Split([ok, c_not(ok)])
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            p = a + b if op[0] == 'A' else a - b if op[0] == 'S' else a * b
            return self.wrap(st, p, info)
        if op in ('Div', 'Rem'):
            lo, hi, bits = info
            c = st.F.norm(b).const()
            a = st.F.norm(a)
            if lo == 0 or st.F.prove_ge(a):
                if c is not None and c > 0:
                    q = self.div(st, a, c)
                    return q if op == 'Div' else a - q * c
                if c is None and st.F.prove_ge(b - 1):
                    if st.F.prove_ge(b - 1 - a): return ZERO if op == 'Div' else a
                    q = mk_divp(a, st.F.norm(b))
                    return q if op == 'Div' else a - q * b
            raise Unsup('division')
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            c = st.F.norm(b).const()
            if c is None:
                l, h = st.F.interval(b)
                if l is not None and h is not None and 0 <= l and h - l <= 16 and h < 128:
                    raise Split([eq(b - j) for j in range(l, h + 1)])
                raise Unsup('symbolic shift')
            c &= info[2] - 1
            if op.startswith('Shr'): return self.div(st, a, 1 << c)
            return self.wrap(st, a * (1 << c), info)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, op, st.F.norm(a), st.F.norm(b), info)
        raise Unsup(f'operator {op}')
    def bitop(self, st, op, a, b, info):
        lo, hi, bits = info
        ca, cb = a.const(), b.const()
        mask = (1 << bits) - 1
        if ca is not None and cb is not None:
            x, y = ca & mask, cb & mask
            r = x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
            if lo < 0 and r >= 1 << (bits - 1): r -= 1 << bits
            return C(r)
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if lo < 0:
            if cb == 0: return ZERO if op == 'BitAnd' else a
            if cb == -1 and op == 'BitAnd': return a
            if st.F.prove_ge(a) and (st.F.prove_ge(b)): pass
            else: raise Unsup('bit operation on signed value')
        if cb is not None:
            cb &= mask
            if op == 'BitAnd': return self.and_mask(st, a, cb)
            if cb == 0: return a
            if cb == mask and op == 'BitXor' and lo == 0: return C(mask) - a
            am = self.and_mask(st, a, cb)
            # a | c = a + c - (a & c);  a ^ c = a + c - 2 (a & c)
            return a + cb - (am if op == 'BitOr' else am * 2)
        # disjoint bits?
        if op in ('BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                l, h = st.F.interval(y)
                if h is not None and l is not None and l >= 0:
                    k = h.bit_length()
                    if all(c % (1 << k) == 0 for c in x.t.values()): return x + y
        if a == b: return ZERO if op == 'BitXor' else a
        ka, kb = sorted((a, b), key=repr)
        hs = [st.F.interval(x)[1] for x in (a, b)]
        if all(h is not None for h in hs):
            top = (1 << max(h.bit_length() for h in hs)) - 1
            hi = min(hs) if op == 'BitAnd' else min(hi, top)
        return A(atom({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], (ka, kb), 0, hi))
    def and_mask(self, st, a, m):
        if m == 0: return ZERO
        # split the mask into runs of ones
        r = ZERO
        i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                # bits i..j-1
                hi_part = self.div(st, a, 1 << j)
                lo_part = self.div(st, a, 1 << i) if i else a
                r = r + (lo_part - hi_part * (1 << (j - i))) * (1 << i)
                i = j
            else: i += 1
        return st.F.norm(r)
    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            p = self.place(st, fr, rv[2] if k == 'ref' else rv[1])
            if self.hooks and 'mutref' in self.hooks and k == 'ref' and 'Mut' in str(rv[1]):
                q = p[1]
                self.hooks['mutref'](self, st, q.cell if p[0] == 'slice' else q[0], q.path if p[0] == 'slice' else q[1])
            if p[0] == 'slice': return p[1]
            cid, path = p[1]
            if isinstance(cid, tuple) and cid[0] == 'str': return StrV(cid[1])
            # reference to an unsized slice stored natively?
            return Ptr(cid, path)
        if k == 'bin':
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], a, b, self.opty(fr, rv[2]), self.opty(fr, rv[3]))
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'PtrMetadata':
                if isinstance(v, Slice): return v.len
                if isinstance(v, StrV): return sym(('strlen', v.key), 0, MAXLEN)
                return UNIT
            if rv[1] == 'Not':
                if self.is_bool(v): return c_not(v)
                info = self.int_of(self.opty(fr, rv[2]))
                if info[0] == 0: return C(info[1]) - v
                return -v - 1
            if rv[1] == 'Neg':
                info = self.int_of(self.opty(fr, rv[2]))
                return self.wrap(st, -v, info)
            raise Unsup(f'unary {rv[1]}')
        if k == 'cast': return self.cast(st, fr, rv, destty)
        if k == 'discr':
            if not rv[1][1] and isinstance(st.cells.get(self.lcell(fr, rv[1][0]), UNINIT), Uninit):
                # a type with only one possible variant needs no value
                t = self.P.types[fr.body['locals'][rv[1][0]]]
                live = [v for v in t.get('variants', ()) if not any(self.uninhabited(f['ty']) for f in v['fields'])]
                if t.get('kind') == 'enum' and len(live) == 1: return C(int(live[0]['discr']))
            p = self.place(st, fr, rv[1])
            v = self.read(st, p[1])
            if isinstance(v, Opq):
                i = self.variant_of(st, v)
                return C(int(self.P.types[v.ty]['variants'][i]['discr']))
            if isinstance(v, Agg):
                return C(self.discr_of(v, fr, rv[1]))
            raise Unsup(f'discriminant of {type(v).__name__}')
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in rv[3])
            if rv[1] == 'tuple': return Agg('tuple', 0, ops)
            if rv[1] == 'array':
                return Seq(self.P.canon(rv[2]) if isinstance(rv[2], int) else '', C(len(ops)), ('const', ops), ())
            if rv[1] == 'adt':
                t = self.P.types[rv[2][0]]
                if t['kind'] == 'union': 
                    return ops[0]
                if len(rv[2]) > 2 and rv[2][2] is not None and t['kind'] == 'union': return ops[0]
                return Agg(t['name'], rv[2][1], ops)
            if rv[1] == 'closure':
                return Agg(self.P.types[rv[2]]['name'] + '@' + str(rv[2]), 0, ops)
            if rv[1] == 'rawptr':
                if isinstance(ops[0], Ptr) and ops[0].path and ops[0].path[-1][0] == 'i' and isinstance(ops[1], Poly):
                    p = ops[0]
                    return Slice(p.cell, p.path[:-1], p.path[-1][1], ops[1])
                raise Unsup('raw fat pointer')
            raise Unsup(f'aggregate {rv[1]}')
        if k == 'repeat':
            n = self.const_usize(rv[2])
            try: v = self.operand(st, fr, rv[1])
            except Unsup as e: v = ('unknown', str(e))
            if isinstance(v, Uninit): return Seq('?', n, ('uninit',), ())
            return Seq('?', n, ('rep', v), ())
        raise Unsup(f'rvalue {k}')
    def uninhabited(self, tid):
        t = self.P.types[tid]
        return t.get('k') == 'never' or (t.get('k') == 'adt' and t.get('kind') == 'enum' and not t['variants'])
    def discr_of(self, v, fr, pl):
        # Find the type of the place to map variant -> discriminant.
        t = self.type_by_name(v.ty)
        if t is None: return v.variant
        return int(t['variants'][v.variant]['discr'])
    def type_by_name(self, name):
        c = getattr(self.P, '_byname', None)
        if c is None:
            c = self.P._byname = {}
            for i, t in enumerate(self.P.types):
                n = t.get('name')
                if n is not None and n not in c: c[n] = t
        return c.get(name)
    def cast(self, st, fr, rv, destty):
        kind = rv[1]
        v = self.operand(st, fr, rv[2])
        src = self.opty(fr, rv[2]); dst = rv[3]
        if kind == 'IntToInt':
            di = self.int_of(dst)
            if isinstance(v, Agg):
                t = self.type_by_name(v.ty); v = C(int(t['variants'][v.variant]['discr']))
            elif isinstance(v, Opq):
                i = self.variant_of(st, v); v = C(int(self.P.types[v.ty]['variants'][i]['discr']))
            v = self.as_int(st, v)
            if di is None: raise Unsup('cast')
            if di[0] < 0:
                l, h = st.F.interval(st.F.norm(v)); m = 1 << di[2]
                if l is not None and h is not None and l >= 0 and di[1] < h < m:      # sign bit: two cases
                    return v - m if self.truth(st, ge(v - (di[1] + 1))) else v
            return self.wrap(st, v, di)
        if kind.startswith('PointerCoercion(Unsize'):
            if isinstance(v, Ptr):
                dt = self.P.types[dst]
                if dt.get('k') in ('ref', 'ptr') and self.P.types[dt['ty']].get('k') == 'slice':
                    q = self.read(st, (v.cell, v.path))
                    if isinstance(q, Opq):
                        tt = self.P.types[q.ty]
                        if tt.get('k') == 'array': q = self.mk(q.ty, q.key)
                    if not isinstance(q, Seq): raise Unsup('unsize')
                    return Slice(v.cell, v.path, ZERO, q.len)
                return v
            return v
        if kind in ('PtrToPtr', 'Transmute') or kind.startswith('PointerCoercion'):
            if kind == 'Transmute':
                di, si = self.int_of(dst), self.int_of(src)
                if di and si: return self.wrap(st, v, di)
                if isinstance(v, (Ptr, Slice)): return v
                if di and isinstance(v, Seq):
                    n = di[2] // 8
                    return self.models.from_bytes(self, st, [self.seq_get(st, v, C(i)) for i in range(n)], di)
                if si and self.P.types[dst].get('k') == 'array':
                    n = si[2] // 8
                    return Seq('u8', C(n), ('const', tuple(self.models.to_bytes(self, st, v, n))), ())
                if self.P.canon(src) == self.P.canon(dst): return v
                raise Unsup(f'transmute {self.P.canon(src)} -> {self.P.canon(dst)}')
            return v
        raise Unsup(f'cast {kind}')
    # ------------------------------------------------------------ execution
    def cfg(self, body):
        k = (body['id'], self.unwinding)
        c = self.P.cfgs.get(k)
        if c is None: c = self.P.cfgs[k] = CFG(body, self.unwinding)
        return c
    def chain(self, fr):
        out = []
        while fr is not None:
            out.append(fr.body['path']); fr = fr.parent
        return tuple(out[::-1])
    def run_body(self, st, body, args, parent, callsite):
        """Returns list of (state, 'ret'|'panic'|'stuck', value)."""
        fr = Frame(body, parent, callsite)
        depth = rec = 0; f = parent
        while f is not None:
            depth += 1
            if f.body is body: rec += 1
            f = f.parent
        if rec:
            import loops
            if loops.REFUTE:
                if rec > loops.REFUTE: return []     # bounded mode: deeper recursion is left out
            elif rec > 5: raise Unsup('recursion')
        if depth > 60: raise Unsup('call depth')
        if body['local']: self.functions.add(body['path'])
        n = body['nargs']
        if body.get('spread') is not None:
            raise Unsup('spread arguments')
        if len(args) != n: raise Unsup(f'argument count of {body["path"]}: {len(args)} vs {n}')
        for i, a in enumerate(args): st.cells[self.lcell(fr, i + 1)] = a
        cfg = self.cfg(body)
        if cfg.irreducible: raise Unsup('irreducible control flow')
        outs = self.region(st, fr, cfg, 0, None, frozenset())
        res = []
        for s, kind, val in outs:
            for i in range(len(body['locals'])):
                s.cells.pop(('L', fr.fid, i), None)
            res.append((s, kind, val))
        return res
    def region(self, st, fr, cfg, start, head, stops):
        """Execute from block start until return or a block in stops is reached.
        head: the loop head whose body this is (not treated as a nested loop at the start)."""
        out = []
        work = [(st, start, True)]
        while work:
            s, b, first = work.pop()
            if b in stops and not (first and b == start):
                out.append((s, 'goto', b)); continue
            self.steps += 1
            self.stats['blocks'] += 1
            if self.steps > self.max_steps: raise Unsup('step limit')
            if b in cfg.loops and not (b == head and first):
                if b == head: out.append((s, 'goto', b)); continue
                import loops
                try: lo = loops.exec_loop(self, s, fr, cfg, b)
                except Unsup as u:
                    self.note_stuck(s, fr, u, b); continue
                for (s2, kind, val) in lo:
                    if kind == 'goto': work.append((s2, val, False))
                    else: out.append((s2, kind, val))
                continue
            for s2, kind, val in self.block(s, fr, b):
                if kind == 'goto': work.append((s2, val, False))
                else: out.append((s2, kind, val))
        return out
    def block(self, st, fr, b):
        bl = fr.body['blocks'][b]
        states = [(st, 0)]
        done = []
        stmts = bl['s']
        while states:
            s, i = states.pop()
            if i == len(stmts): done.append(s); continue
            try:
                self.stmt(s, fr, stmts[i])
                states.append((s, i + 1))
            except Split as sp:
                for s2 in self.apply_split(s, sp.alts): states.append((s2, i))
            except Unsup as u:
                self.note_stuck(s, fr, u, b)
        res = []
        for s in done: 
            work = [s]
            guard = 0
            while work:
                s = work.pop()
                guard += 1
                if guard > 4000: raise Unsup('split limit')
                try:
                    res.extend(self.term(s, fr, bl['t'], b))
                except Split as sp:
                    work.extend(self.apply_split(s, sp.alts))
                except Unsup as u:
                    self.note_stuck(s, fr, u, b)
        return res
    def note_stuck(self, st, fr, u, b):
        if st.F.infeasible(): return
        self.stuck.append((str(u), fr.body['path'], b, self.chain(fr)))
    def stmt(self, st, fr, s):
        k = s[0]
        self.stats['stmts'] += 1
        if k == '=':
            destty = None
            v = self.rvalue(st, fr, s[2], destty)
            p = self.place(st, fr, s[1])
            if p[0] != 'loc': raise Unsup('assignment to slice')
            self.write(st, p[1], v)
            # moved-out operands
        elif k == 'dead':
            st.cells.pop(('L', fr.fid, s[1]), None)
        elif k == 'live':
            st.cells[('L', fr.fid, s[1])] = UNINIT
        elif k == 'assume':
            pass
        elif k == 'setdiscr':
            raise Unsup('set discriminant')
    def term(self, st, fr, t, b):
        k = t[0]
        if k == 'goto': return [(st, 'goto', t[1])]
        if k == 'return':
            v = st.cells.get(self.lcell(fr, 0), UNIT)
            if isinstance(v, Uninit): v = UNIT
            return [(st, 'ret', v)]
        if k == 'unreachable':
            if not st.F.infeasible(): self.stuck.append(('reached unreachable code', fr.body['path'], b, self.chain(fr)))
            return []
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            out = []
            if self.is_bool(v):
                vals = {int(x[0]): x[1] for x in t[2]}
                for val, c in ((0, c_not(v)), (1, v)):
                    tgt = vals.get(val, t[3])
                    if tgt is None: continue
                    fs = st.F.assume(c)
                    for f in fs:
                        s2 = st.copy() ; s2.F = f
                        out.append((s2, 'goto', tgt))
                return out
            if not isinstance(v, Poly): raise Unsup(f'switch on {type(v).__name__}')
            info = self.int_of(self.opty(fr, t[1])) if self.opty(fr, t[1]) is not None else None
            v = st.F.norm(v)
            c = v.const()
            targets = []
            for x in t[2]:
                val = int(x[0])
                if info is not None and info[0] < 0 and val >= 1 << (info[2] - 1): val -= 1 << info[2]
                targets.append((val, x[1]))
            if c is not None:
                for val, tgt in targets:
                    if val == c: return [(st, 'goto', tgt)]
                if t[3] is None: return []
                return [(st, 'goto', t[3])]
            for val, tgt in targets:
                for f in st.F.assume(eq(v - val)):
                    s2 = st.copy(); s2.F = f; out.append((s2, 'goto', tgt))
            if t[3] is not None and fr.body['blocks'][t[3]]['t'][0] != 'unreachable':
                for f in st.F.assume(c_and(*[ne(v - val) for val, _ in targets])):
                    s2 = st.copy(); s2.F = f; out.append((s2, 'goto', t[3]))
            return out
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            self.stats['asserts'] += 1
            ok = v if t[2] else c_not(v)
            d = st.F.decide(ok)
            if d is True: return [(st, 'goto', t[4])]
            out = []
            bad = st.F.assume(c_not(ok))
            bad = [f for f in bad if not f.infeasible()]
            for f in bad:
                s2 = st.copy(); s2.F = f
                self.panic(s2, fr, 'assert ' + ' '.join(str(x) for x in t[3][:2] if isinstance(x, str)), b)
                out.append((s2, 'panic', None))
            for f in st.F.assume(ok):
                s2 = st.copy(); s2.F = f
                out.append((s2, 'goto', t[4]))
            return out
        if k == 'drop':
            return self.models.drop(self, st, fr, t, b)
        if k == 'call': return self.call_term(st, fr, t, b)
        if k == 'resume' and self.unwinding: return [(st, 'unwind', None)]
        if k in ('resume', 'abort'): return []
        raise Unsup(f'terminator {k}')
    def panic(self, st, fr, msg, b):
        site = fr
        # attribute to the innermost local function
        while site is not None and not site.body['local']: site = site.parent
        self.panics.append(PanicRec(site.body['path'] if site else fr.body['path'], msg, st, self.chain(fr), 'panic'))
    def call_term(self, st, fr, t, b):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        span, destty = t[6], (t[7] if len(t) > 7 else None)
        base = st
        st = st.copy()
        if isinstance(callee, list):
            fv = self.operand(st, fr, callee)
            argv = [self.operand(st, fr, a) for a in args]
            outs = self.call_value(st, fr, fv, argv, destty, span)
        else:
            argv = [self.operand(st, fr, a) for a in args]
            outs = self.call(st, fr, callee, argv, destty, span, [self.opty(fr, a) for a in args])
        if fr.body['local'] and not isinstance(callee, list):
            self.callsites.add((fr.body['path'], callee['path'], span))
        res = []
        for s, kind, val in outs:
            if kind == 'ret':
                if target is None:
                    continue
                p = self.place(s, fr, dest)
                self.write(s, p[1], val)
                res.append((s, 'goto', target))
            elif kind == 'unwind' and t[5] is not None: res.append((s, 'goto', t[5]))
            else:
                res.append((s, kind, val))
        return res
    def call(self, st, fr, callee, argv, destty, span, argtys=None):
        self.stats['calls'] += 1
        r = self.models.native(self, st, fr, callee, argv, destty, span, argtys)
        if r is not None: return r
        inst = callee['inst']
        if inst is not None and inst in self.P.bodies:
            # the own versions of the methods of a natively modelled iterator look at its fields: use the generic ones
            if inst != callee.get('alt') and callee.get('alt') in self.P.bodies and argv:
                x = argv[0]
                try:
                    while isinstance(x, Ptr): x = self.read(st, (x.cell, x.path))
                except Unsup: x = None
                if isinstance(x, It): return self.run_body(st, self.P.bodies[callee['alt']], argv, fr, span)
            return self.run_body(st, self.P.bodies[inst], argv, fr, span)
        if callee.get('alt') is not None and callee['alt'] in self.P.bodies and isinstance(argv[0] if argv else None, (It, Ptr, Agg)):
            return self.run_body(st, self.P.bodies[callee['alt']], argv, fr, span)
        return self.models.external(self, st, fr, callee, argv, destty, span, argtys)
    def call_value(self, st, fr, fv, argv, destty, span):
        """Call a closure / function item / opaque callable value with unpacked arguments."""
        if isinstance(fv, Ptr): fv = self.read(st, (fv.cell, fv.path))
        if isinstance(fv, FnV):
            c = self.P.fns[fv.callee]
            return self.call(st, fr, c, argv, destty, span, None)
        if isinstance(fv, Agg):
            return self.call_closure(st, fr, fv, argv, destty, span, None)
        raise Unsup(f'call of {type(fv).__name__}')
    def call_closure(self, st, fr, fv, argv, destty, span, selfptr):
        name = fv.ty
        tid = int(name.rsplit('@', 1)[1]) if '@' in name and name.rsplit('@', 1)[1].isdigit() else None
        if tid is None: raise Unsup('closure type')
        t = self.P.types[tid]
        body = self.P.bodies.get(t['body'])
        if body is None: raise Unsup('closure body')
        # Does the body take self by value or by reference?
        lt_ = self.P.types[body['locals'][1]]
        if lt_.get('k') in ('ref', 'ptr'):
            if selfptr is None:
                cid = ('T', fresh_id()); st.cells[cid] = fv
                selfptr = Ptr(cid, ())
            a0 = selfptr
        else: a0 = fv
        n = body['nargs']
        return self.run_body(st, body, [a0] + list(argv), fr, span)

def hash_const(c):
    return hash(json.dumps(c, sort_keys=True))
