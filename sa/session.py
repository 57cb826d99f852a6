"""Analysis sessions: one program database, the contracts, the (inferred) data structure invariants, and a
driver that analyses entry points in parallel."""
import os, signal, sys, time, traceback
from multiprocessing import get_context
import extract
import interp
from values import *
from contracts import *
from models import vkey

ROOT_TIMEOUT = int(os.environ.get('VERIF_ROOT_TIMEOUT', '150'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

class Cand:
    """A candidate invariant of a struct."""
    def __init__(self, path, name, f): self.path = path; self.name = name; self.f = f

class Result:
    pass

def generalised(s, c):
    """Does a condition mention values that stand for all rounds of a loop (their bounds may have been lost)?"""
    from spec import all_atoms
    if not (isinstance(c, tuple) and len(c) > 1 and isinstance(c[1], Poly)): return False
    return any(a.kind == 'sym' and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] in ('phi', 'ghost', 'psum') for a in all_atoms(s.F.norm(c[1])))

_cur = None   # session inherited by forked workers

class Session:
    def __init__(self, config='default', want_inv=True, log_on=None):
        self.log_on = log_on
        self.config = config
        self.roles = None
        self.P = Prog(extract.load(config))
        self.L = BusLayout(self.P)
        self.con = kernel_contracts(self.P)
        self.con_recv = dict(self.con)
        self.con_recv[anchor(self.P, 'recv')['path']] = c_recv_for(self.L)
        self.assumed = packet_invariants(self.P)
        self.cands = self.candidates()
        self.dropped = []
        self.inv_runs = 0
        self._local_bus = {}
        self.refutable = {}     # rule function -> which of its tasks the bounded mode may re-examine
        if want_inv: self.infer()
        self.roots = [r for r in self.P.roots if not r['derived'] and not r['fmt'] and not r['test']]
    # ------------------------------------------------------------ candidates
    def candidates(self):
        P, L = self.P, self.L
        out = []
        for n, f in bus_invariants(P, L): out.append(Cand(L.path, n, f))
        for path, i in local_adts(P).items():
            t = P.types[i]
            if path == L.path or t['kind'] != 'struct' or path in self.assumed: continue
            if path == P.types[L.tid]['path']: continue
            fs = t['variants'][0]['fields']
            us = [j for j, f in enumerate(fs) if P.types[f['ty']].get('k') == 'int' and P.types[f['ty']]['name'] == 'usize']
            seqs = []
            for j, f in enumerate(fs):
                ft = P.types[f['ty']]
                if ft.get('k') == 'ref' and P.types[ft['ty']].get('k') == 'slice': seqs.append(j)
                elif ft.get('k') == 'array': seqs.append(j)
                elif ft.get('k') == 'adt' and 'MaybeUninit<[' in (ft.get('name') or ''): seqs.append(j)
                elif ft.get('k') == 'adt' and ft['path'] in ('alloc::vec::Vec',): seqs.append(j)
            for u in us:
                for s in seqs:
                    out.append(Cand(path, f'{fs[u]["name"]} <= len({fs[s]["name"]})', self.mk_le(u, s)))
                for v in us:
                    if v != u: out.append(Cand(path, f'{fs[u]["name"]} <= {fs[v]["name"]}', self.mk_leu(u, v)))
        return out
    def mk_le(self, u, s):
        def f(I, a):
            v, q = a.fields[u], a.fields[s]
            n = self.seqlen(I, a, s)
            if not isinstance(v, Poly) or n is None: return None
            return le(v, n)
        return f
    def seqlen(self, I, a, s):
        q = a.fields[s]
        if isinstance(q, (Slice, Seq)): return q.len
        if isinstance(q, BufV): return q.seq.len
        if isinstance(q, Ptr): return None
        # storage of unknown contents: the length is in the type
        i = I.P.adt_by_name.get(a.ty) if hasattr(I.P, 'adt_by_name') else None
        t = I.P.types[q.ty] if isinstance(q, Opq) else None
        if t is None:
            for x in I.P.types:
                if x.get('k') == 'adt' and x.get('name') == a.ty: t = I.P.types[x['variants'][0]['fields'][s]['ty']]; break
        return self.arr_len(I, t)
    def arr_len(self, I, t):
        if t is None: return None
        if t.get('k') == 'array': return I.const_usize(t['len'])
        if t.get('k') == 'adt':
            for x in t.get('args', ()):
                if isinstance(x, int):
                    r = self.arr_len(I, I.P.types[x])
                    if r is not None: return r
            for var in t['variants']:
                for f in var['fields']:
                    r = self.arr_len(I, I.P.types[f['ty']])
                    if r is not None: return r
        return None
    def mk_leu(self, u, v):
        def f(I, a):
            x, y = a.fields[u], a.fields[v]
            return le(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else None
        return f
    # ------------------------------------------------------------ interpreter set-up
    def post_bus(self, I, st, a):
        fs = list(a.fields)
        for i in self.L.bufs:
            if isinstance(fs[i], Opq):
                v = fs[i]
                fs[i] = BufV(v.ty, v.key, I.step_read(st, v, ('buf',)))
        b = fs[self.L.baud]
        if isinstance(b, Poly): I.assume_all(st, [ge(b - 1)])
        return Agg(a.ty, 0, tuple(fs))
    def interp(self, recv=True, hooks=None):
        I = interp.Interp(self.P, hooks=hooks, contracts=self.con_recv if recv else self.con)
        I.log_on = self.log_on
        inv = dict(self.assumed)
        by = {}
        for c in self.cands: by.setdefault(c.path, []).append(c)
        for path, cs in by.items():
            def g(I, a, cs=cs):
                out = []
                for c in cs:
                    x = c.f(I, a)
                    if x is None: continue
                    if x[0] == 'wbyte':
                        q = x[1].seq
                        if q.log == () and q.base[0] == 'sym':
                            out.append(eq(sym((q.base[1], 'el', C(x[2])), 0, 255) - PREFIX[x[2]]))
                        continue
                    out.append(x)
                return out
            inv[path] = [g]
        I.inv = inv
        I.post[self.L.path] = self.post_bus
        return I
    def has_bus(self, tid, seen=()):
        """Does a value of this type contain (a reference to) the bus? Then it is expanded before the analysis."""
        r = self._local_bus.get(tid)
        if r is not None: return r
        if tid in seen: return False
        t = self.P.types[tid]; k = t.get('k')
        r = False
        if k in ('ref', 'ptr'): r = self.has_bus(t['ty'], seen + (tid,))
        elif k == 'tuple': r = any(self.has_bus(x, seen + (tid,)) for x in t['tys'])
        elif k == 'adt' and t.get('local') and t['kind'] == 'struct':
            r = t['path'] == self.L.path or any(self.has_bus(f['ty'], seen + (tid,)) for f in t['variants'][0]['fields'])
        self._local_bus[tid] = r
        return r
    def open_up(self, I, st, v, tid):
        """Replaces opaque structs that contain the bus (behind references) by their fields."""
        if not self.has_bus(tid): return v
        t = self.P.types[tid]; k = t.get('k')
        if k in ('ref', 'ptr') and isinstance(v, Ptr):
            x = I.read(st, (v.cell, v.path))
            y = self.open_up(I, st, x, t['ty'])
            if y is not x: I.write(st, (v.cell, v.path), y)
            return v
        if isinstance(v, Opq): v = I.expand(st, v)
        if isinstance(v, Agg):
            fts = t['tys'] if k == 'tuple' else [f['ty'] for f in t['variants'][0]['fields']]
            return Agg(v.ty, v.variant, tuple(self.open_up(I, st, x, ft) for x, ft in zip(v.fields, fts)))
        return v
    def args_of(self, I, st, b):
        out = []
        for i in range(b['nargs']):
            tid = b['locals'][i + 1]
            v = I.mk(tid, ('arg', i, b['id']))
            t = self.P.types[tid]
            if t.get('k') == 'int' and t['name'] == 'usize':
                I.assume_all(st, [ge(C(MAXCOUNT) - v)])
            if t.get('k') == 'int' and t['name'] == 'u32': I.assume_all(st, [ge(v - 1)]) if self.is_baud(b, i) else None
            out.append(self.open_up(I, st, v, tid))
        return out
    def is_baud(self, b, i):
        """u32 arguments are baud rates (assumed to be non-zero); the byte counts of the transfer time are not."""
        return b['nargs'] - 1 == i
    # ------------------------------------------------------------ running one entry point
    def run(self, root, recv=True, hooks=None, prepare=None, timeout=None, args=None):
        """Analyses one entry point; returns a Result with the partitioned exit states."""
        b = self.P.bodies[root['body']]
        I = self.interp(recv, hooks)
        R = Result(); R.root = root; R.I = I; R.body = b; R.error = None; R.outs = []; R.args = []
        st = St()
        R.st0 = st
        t0 = time.time()
        def alarm(*a): raise TimeoutError()
        old = signal.signal(signal.SIGALRM, alarm); signal.alarm(timeout or ROOT_TIMEOUT)
        try:
            R.args = args(I, st, b) if args is not None else self.args_of(I, st, b)
            if prepare: prepare(I, st, R.args)
            I.root_args = R.args
            R.entry = st.copy()
            outs = I.run_body(st, b, R.args, None, None)
            R.outs = [o for o in outs if not o[0].F.infeasible()]
        except TimeoutError: R.error = 'time limit'
        except Unsup as u: R.error = str(u)
        except Split as u: R.error = 'case distinction at top level'
        except RecursionError: R.error = 'recursion limit'
        except Exception as e:
            R.error = 'internal: ' + repr(e) + ' ' + traceback.format_exc()[-600:]
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        R.time = time.time() - t0
        return R
    # ------------------------------------------------------------ invariants
    def mutators(self):
        """Functions that construct or (through a place projection) change a struct with candidate invariants."""
        P = self.P
        paths = {c.path for c in self.cands}
        hit = {}
        for r in P.roots:
            if r['derived'] or r['fmt'] or r['test']: continue
            b = P.bodies[r['body']]
            s = set()
            for bb in self.with_closures(b):
                s |= self.direct_mut(bb, paths)
            if s: hit[r['path']] = (r, s)
        return hit
    def with_closures(self, b):
        out = [b]; seen = {b['id']}
        k = 0
        while k < len(out):
            for bl in out[k]['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                        cb = self.P.types[s[2][2]].get('body')
                        if cb in self.P.bodies and cb not in seen: seen.add(cb); out.append(self.P.bodies[cb])
            k += 1
        return out
    def proj_types(self, b, pl):
        """Types of the structs a place projects a field out of (in order)."""
        P = self.P
        tid = b['locals'][pl[0]]; out = []
        variant = 0
        for e in pl[1]:
            t = P.types[tid]
            if e[0] == 'deref':
                if 'ty' in t: tid = t['ty']
                else: return out
            elif e[0] == 'f':
                if t.get('k') == 'adt':
                    out.append(t['path'])
                    if variant < len(t['variants']) and e[1] < len(t['variants'][variant]['fields']): tid = t['variants'][variant]['fields'][e[1]]['ty']
                    else: return out
                elif t.get('k') == 'tuple': tid = t['tys'][e[1]]
                elif t.get('k') == 'closure' and 'upvars' in t and e[1] < len(t['upvars']): tid = t['upvars'][e[1]]
                else: return out
                variant = 0
            elif e[0] == 'down' or e[0] == 'downcast': variant = e[1]
            else: return out
        return out
    def direct_mut(self, b, paths):
        s = set()
        for bl in b['blocks']:
            for x in bl['s']:
                if x[0] != '=': continue
                s |= set(self.proj_types(b, x[1])) & paths
                rv = x[2]
                if rv[0] == 'ref' and 'Mut' in str(rv[1]): s |= set(self.proj_types(b, rv[2])) & paths
                elif rv[0] == 'rawptr': s |= set(self.proj_types(b, rv[1] if isinstance(rv[1], list) else rv[2])) & paths
                elif rv[0] == 'agg' and rv[1] == 'adt':
                    t = self.P.types[rv[2] if isinstance(rv[2], int) else rv[2][0]]
                    if t is not None and t.get('path') in paths: s.add(t['path'])
            if bl['t'][0] == 'call': s |= set(self.proj_types(b, bl['t'][3])) & paths
        return s
    def find_structs(self, I, st, v, want, out, seen, depth=0):
        if depth > 12: return
        if isinstance(v, Agg):
            p = want.get(v.ty)
            if p: out.append((p, v))
            for x in v.fields: self.find_structs(I, st, x, want, out, seen, depth + 1)
        elif isinstance(v, Ptr):
            if (v.cell, v.path) in seen: return
            seen.add((v.cell, v.path))
            if v.cell in st.cells:
                try: self.find_structs(I, st, I.read(st, (v.cell, v.path)), want, out, seen, depth + 1)
                except (Unsup, Split): pass
        elif isinstance(v, tuple):
            for x in v: self.find_structs(I, st, x, want, out, seen, depth + 1)
    def check_root_invs(self, root):
        """Candidates that are not established at some exit of the function: list of (index into self.cands, definite?).
        A failure is definite if the state it was seen in is exact."""
        isrecv = root['path'] == anchor(self.P, 'recv')['path']
        prep = None
        if isrecv and self.window:
            import rules4
            rl, used = rules4.roles(self)
            prep = rules4.prepare_window(self, rl, used)
        R = self.run(root, recv=not isrecv, prepare=prep)
        P = self.P
        want = {t['name']: t['path'] for t in P.types if t.get('k') == 'adt' and any(c.path == t['path'] for c in self.cands)}
        bad = {}; n = 0
        und = R.error or (R.I.stuck[0][0] if R.I.stuck else None)
        for s, k, v in R.outs:
            if k != 'ret': continue
            fs = []; seen = set()
            self.find_structs(R.I, s, v, want, fs, seen)
            for a in R.args: 
                if isinstance(a, Ptr): self.find_structs(R.I, s, a, want, fs, seen)
            for p, agg in fs:
                for i, c in enumerate(self.cands):
                    if c.path != p or bad.get(i): continue
                    n += 1
                    try:
                        x = c.f(R.I, agg)
                        if x is not None and not check_inv(R.I, s, x): bad[i] = not s.taint and not generalised(s, x)
                    except (Unsup, Split): bad.setdefault(i, False)
        return root['path'], sorted(bad.items()), n, und
    def infer(self):
        """Houdini: drop candidates until all functions that can change the structs preserve the rest."""
        self.inv_log = []; self.window = False; self.unproved = []
        P = self.P
        for rnd in range(8):
            mut = self.mutators()
            roots = [r for r, s in mut.values()]
            res = self.parallel('check_root_invs', roots)
            self.inv_runs += len(roots)
            bad = {}     # candidate -> definitely?
            self.inv_checks = sum(x[2] for x in res)
            def note(bs):
                for i, d in bs: bad[i] = bad.get(i, False) or d
            atrecv = False
            for path, b, n, und in res:
                root = mut[path][0]
                if und: self.inv_log.append((path, und))
                if not b: continue
                if not self.boundary(root):
                    callers = self.callers(path)
                    if callers:
                        sub = self.parallel('check_root_invs', callers)
                        for _, b2, _, _ in sub: note(b2)
                        continue
                if root['path'] == anchor(P, 'recv')['path'] and any(not d for i, d in b): atrecv = True
                note(b)
            if not bad: break
            names = {(c.path, c.name): i for i, c in enumerate(self.cands)}
            def reverse(i):
                l, op, r = self.cands[i].name.partition(' <= ')
                return names.get((self.cands[i].path, f'{r} <= {l}'))
            drop = {i for i, d in bad.items() if d}
            if not drop: drop = {i for i in bad if reverse(i) is not None and reverse(i) not in bad}
            if not drop and atrecv and not self.window:
                import rules4
                try: rules4.roles(self); self.window = True; continue     # exact contents of the read buffer
                except (Unsup, Missing): pass
            if not drop:
                # Only seen in imprecise states: kept as assumptions (a missing invariant would cause false alarms), except
                # for pairs of fields of which no order is known.
                drop = {i for i in bad if reverse(i) is not None}
                if not drop:
                    self.unproved = [self.cands[i] for i in sorted(bad)]
                    break
            self.dropped += [self.cands[i] for i in sorted(drop)]
            self.cands = [c for i, c in enumerate(self.cands) if i not in drop]
    def boundary(self, root):
        """Functions at whose exits the invariants have to hold: the public interface, and the receive function (its callers only know its contract)."""
        return (root['pub'] and root['reachable']) or root['path'] == anchor(self.P, 'recv')['path']
    def callers(self, path):
        """Boundary functions that reach a private function through calls."""
        P = self.P
        rootof = {r['path']: r for r in P.roots}
        calls = {}
        for r in P.roots:
            cs = set()
            for b in self.with_closures(P.bodies[r['body']]):
                for bl in b['blocks']:
                    t = bl['t']
                    if t[0] == 'call' and not isinstance(t[1], list):
                        cs.add(t[1]['path'])
                        i = t[1].get('inst')
                        if i in P.bodies: cs.add(P.bodies[i]['path'])
            calls[r['path']] = cs
        out = {}; work = [path]; seen = {path}
        while work:
            p = work.pop()
            for q, cs in calls.items():
                if p in cs and q not in seen:
                    seen.add(q)
                    if self.boundary(rootof[q]): out[q] = rootof[q]
                    else: work.append(q)
        return list(out.values())
    # ------------------------------------------------------------ parallel driver
    def parallel(self, method, items, *extra):
        """Runs self.method(item, *extra) for all items in forked workers; results in order."""
        global _cur
        _cur = (self, method, list(items), extra)
        if not items: return []
        if WORKERS <= 1 or len(items) == 1:
            return [work1(self, method, x, extra) for x in items]
        ctx = get_context('fork')
        with ctx.Pool(min(WORKERS, len(items))) as pool:
            return pool.map(_work, range(len(items)), chunksize=1)

def _work(i):
    s, m, items, extra = _cur
    return work1(s, m, items[i], extra)

def work1(s, m, item, extra):
    f = (lambda: m(s, item, *extra)) if callable(m) else (lambda: getattr(s, m)(item, *extra))
    r = f()
    rounds = s.refutable.get(m, lambda x: 0)(item) if callable(m) else 0
    if not rounds: return r
    import loops
    if (not r.und or r.norefute) and not os.environ.get('VERIF_FORCE_BOUNDED'): return r
    # Something was not decided: the same rule in the bounded mode. Its states are exact (loops are unrolled, runs of
    # more rounds are left out), so an obligation that fails there in some path partition really fails.
    loops.REFUTE = rounds
    try: b = f()
    except Exception: return r
    finally: loops.REFUTE = 0
    for k, v in b.viol.items():
        if k in b.pathv:
            r.viol.setdefault(k, v + ' [partition with a bounded number of loop rounds]'); r.und.pop(k, None)
    return r
