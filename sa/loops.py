"""Loop analysis: bounded unrolling where the trip count is decided, otherwise inductive loop invariants.

For a loop that is not unrolled the state at the loop head is generalised until it is inductive:
every value position that changes is described by an affine function of the iteration count, by a
prefix sum over the items visited, or by an unknown constrained by inductive inequalities (Houdini
over candidate templates) and by the linear relations between the per-iteration increments."""
from fractions import Fraction
from values import *
from num import *
import interp as _i

UNROLL = 40
DEBUG = False
REFUTE = 0      # bounded mode: loops are unrolled up to this many rounds, longer runs are left out (see session.refute)

class Hyp:
    __slots__ = ('kind', 'mode', 'v0', 'val', 'data', 'ty', 'spec', 'free', 'upd')
    def __init__(self, kind, mode, v0): self.kind = kind; self.mode = mode; self.v0 = v0; self.val = None; self.data = None; self.ty = None; self.spec = False; self.free = False; self.upd = 0

def delta(b, v, x):
    """v - x; a constant if the facts of the state say so."""
    d = b.F.norm(v - x)
    return d if d.const() is not None else v - x

def run_iter(I, st, fr, cfg, head, stops):
    outs = I.region(st.copy(), fr, cfg, head, head, stops)
    back, other = [], []
    for o in outs:
        if o[0].F.infeasible(): continue
        (back if o[1] == 'goto' and o[2] == head else other).append(o)
    return back, other

def exec_loop(I, st, fr, cfg, head):
    blocks = cfg.loops[head]
    exits = {s for b in blocks for s in cfg.succ[b] if s not in blocks}
    stops = frozenset(exits | {head})
    I.stats['loops'] += 1
    results = []
    cur = [st]
    if REFUTE:
        for it in range(max(UNROLL, min(REFUTE, 300) + 1)):
            new = []
            for s in cur:
                back, other = run_iter(I, s, fr, cfg, head, stops)
                results.extend(other)
                # rounds of loops with a fixed number of rounds do not count
                new.extend(b[0] for b in back if it < REFUTE or (not [o for o in other if o[1] != 'panic'] and len(back) == 1))
            cur = new
            if not cur: break
        return results
    mark = len(I.panics), len(I.stuck), len(I.loopinfo)
    for it in range(UNROLL):
        new = []
        for s in cur:
            np_, ns = len(I.panics), len(I.stuck)
            back, other = run_iter(I, s, fr, cfg, head, stops)
            leaving = [o for o in other if o[1] != 'panic']
            if back and (leaving or len(I.stuck) > ns):
                if it > 0 and len(cur) > 4:
                    # not a loop with a fixed number of rounds: do not generalise each of many states separately
                    del I.panics[mark[0]:]; del I.stuck[mark[1]:]; del I.loopinfo[mark[2]:]
                    return bounded(I, st, fr, cfg, head, stops)
                del I.panics[np_:]; del I.stuck[ns:]
                results.extend(bounded(I, s, fr, cfg, head, stops))
            else:
                results.extend(other)
                new.extend(b[0] for b in back)
        cur = new
        if not cur: return results
        if len(cur) > 64: break
    for s in cur: results.extend(general(I, s, fr, cfg, head, stops, 0))
    return results

SMALL = 8
def bounded(I, s, fr, cfg, head, stops):
    """Generalises the loop; a loop that turns out to have a small constant bound is unrolled instead."""
    np_, ns, nl = len(I.panics), len(I.stuck), len(I.loopinfo)
    res = general(I, s, fr, cfg, head, stops, 2)
    if len(I.loopinfo) <= nl: return res
    l = I.loopinfo[-1]
    if l['head'] != head or not l['backs'] or not all(b.F.prove_ge(C(SMALL - 1) - l['k']) for b in l['backs']): return res
    saved = I.panics[np_:], I.stuck[ns:], I.loopinfo[nl:]
    del I.panics[np_:]; del I.stuck[ns:]; del I.loopinfo[nl:]
    out = []; cur = [s]
    for it in range(SMALL + 1):
        new = []
        for x in cur:
            back, other = run_iter(I, x, fr, cfg, head, stops)
            out.extend(other); new.extend(b[0] for b in back)
        cur = new
        if not cur: return out
        if len(cur) > 64 or len(I.stuck) > ns: break
    del I.panics[np_:]; del I.stuck[ns:]; del I.loopinfo[nl:]
    I.panics += saved[0]; I.stuck += saved[1]; I.loopinfo += saved[2]
    return res

# ------------------------------------------------------------------ structure walking
def children(v):
    if isinstance(v, V) and not isinstance(v, Seq): return v.parts()
    if isinstance(v, tuple) and not Interp_is_bool(v): return v
    return None
def Interp_is_bool(v): return v is True or v is False or (isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], str) and v[0] in ('ge', 'eq', 'ne', 'and', 'or', 'bv'))

def rebuildv(v, parts): return tuple(parts) if isinstance(v, tuple) else type(v)(*parts)

def replace(v, path, nv):
    if not path: return nv
    ch = list(children(v))
    ch[path[0]] = replace(ch[path[0]], path[1:], nv)
    return rebuildv(v, ch)
def at(v, path):
    for i in path: v = children(v)[i]
    return v

def leafkind(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly): return 'poly'
    if Interp_is_bool(a) and Interp_is_bool(b): return 'bool'
    if isinstance(a, Seq) and isinstance(b, Seq): return 'seq'
    return 'any'

def diff(h, b, F, path, out, known):
    """Positions where b differs from h (F: facts of b)."""
    if path in known:
        out.append((path, known[path].kind, b)); return
    if h is b: return
    if isinstance(h, Poly) and isinstance(b, Poly):
        x, y = F.norm(h), F.norm(b)
        if x == y: return
        if (x - y).const() is None and F.prove_ge(x - y) and F.prove_ge(y - x): return
        out.append((path, 'poly', b)); return
    if Interp_is_bool(h) and Interp_is_bool(b):
        if h != b: out.append((path, 'bool', b))
        return
    if isinstance(h, Seq) and isinstance(b, Seq):
        if h == b and h.len == b.len: return
        out.append((path, 'seq', b)); return
    if type(h) is type(b):
        ch, cb = children(h), children(b)
        if ch is not None and cb is not None and len(ch) == len(cb):
            if isinstance(h, Agg) and (h.variant != b.variant or h.ty != b.ty):
                out.append((path, 'any', b)); return
            if isinstance(h, Opq) and h.ty != b.ty: out.append((path, 'any', b)); return
            n = len(out)
            for i, (x, y) in enumerate(zip(ch, cb)):
                diff(x, y, F, path + (i,), out, known)
            # mismatch inside a key or location: the whole value is unknown
            if any(k == 'any' and not isinstance(at_safe(h, p[len(path):]), V) for p, k, _ in out[n:]):
                del out[n:]
                out.append((path, 'any', b))
            return
        if ch is None and cb is None and h == b: return
    elif isinstance(h, Uninit) or isinstance(b, Uninit):
        out.append((path, 'any', b)); return
    out.append((path, 'any', b))
def at_safe(v, path):
    try: return at(v, path)
    except Exception: return None

SPOS = ('#spos',)
def getcell(I, s, cid):
    if cid == SPOS: return s.spos
    return I.cell(s, cid)

def deep_syms(x, out):
    if isinstance(x, Poly):
        for m in x.t:
            for i in m:
                if i not in out:
                    out.add(i)
                    deep_syms(ATOMS[i].args, out)
    elif isinstance(x, tuple):
        for y in x: deep_syms(y, out)
    elif isinstance(x, V): deep_syms(x.parts(), out)

def is_fresh_after(a, mark):
    if a.kind != 'sym': return False
    k = a.args[0]
    return isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and k[1].startswith('#') and k[1][1:].isdigit() and int(k[1][1:]) > mark

def nullspace(rows, n):
    """Rational nullspace basis of the given integer rows (lists of length n)."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None: continue
        m[r], m[p] = m[p], m[r]
        d = m[r][c]; m[r] = [x / d for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]; m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c); r += 1
        if r == len(m): break
    out = []
    for c in range(n):
        if c in piv: continue
        v = [Fraction(0)] * n; v[c] = Fraction(1)
        for i, pc in enumerate(piv): v[pc] = -m[i][c]
        l = 1
        for x in v: l = l * x.denominator // __import__('math').gcd(l, x.denominator)
        out.append([int(x * l) for x in v])
    return out

def subst_many(p, pairs):
    """Simultaneous substitution of atoms."""
    tmp = []
    for a, val in pairs:
        t = atom('tmp', (a.id,), a.lo, a.hi)
        p = subst_atom(p, a, A(t)); tmp.append((t, val))
    for t, val in tmp: p = subst_atom(p, t, val)
    return p

def general(I, s0, fr, cfg, head, stops, peel):
    mark = fresh_id()
    kap = fresh('k', 0, MAXLEN)
    ka = kap.single()
    kv = atom('bound', ('kv', mark), 0, None)
    live = cfg.live[head] | cfg.borrowed
    P0, S0 = len(I.panics), len(I.stuck)

    def discard():
        del I.panics[P0:]; del I.stuck[S0:]
    s0 = s0.copy()
    for cid in list(s0.cells):
        if cid[0] == 'L' and cid[1] == fr.fid and cid[2] not in live: s0.cells.pop(cid)

    hyps = {}          # cell -> {path: Hyp}
    cands = None       # list of (poly over head symbols)
    rejected = set()
    rels = []
    stars = {'used': False, 'lid': ('loop', mark)}
    rounds = 0
    window_fail = set()

    def build():
        h = s0.copy()
        pol = []
        for cid, ps in hyps.items():
            v = getcell(I, s0, cid)
            for path, hy in ps.items():
                v0 = at(v, path)
                hy.v0 = v0
        for cid, ps in hyps.items():
            v = getcell(I, s0, cid)
            for path, hy in sorted(ps.items()):
                if hy.kind == 'poly':
                    if hy.mode == 'affine': hy.val = s0.F.norm(hy.v0 + hy.data * kap)
                    elif hy.mode == 'psum': hy.val = hy.v0 + mk_psum(hy.data, kap)
                    else:
                        if hy.data is None:
                            lo, hi = phi_range(I, s0, hy)
                            hy.data = fresh('phi', lo, hi)
                        hy.val = hy.data
        for cid, ps in hyps.items():
            v = getcell(I, s0, cid)
            for path, hy in sorted(ps.items()):
                if hy.kind == 'poly': nv = hy.val
                elif hy.kind == 'bool':
                    if hy.data is None: hy.data = ('bv', ('loopbool', fresh_id()), True)
                    nv = hy.val = hy.data
                elif hy.kind == 'seq':
                    q = hy.v0
                    if hy.mode == 'ph': nv = Seq(q.elty, q.len, q.base, q.log + (('ph', mark, []),))
                    elif hy.mode == 'loop': nv = Seq(q.elty, q.len, q.base, q.log + (('loop', kv, kap, hy.data),))
                    elif hy.mode == 'window':
                        S, xref, gh, yref = hy.data
                        x = ref_val(I, h, xref, hyps)
                        y = ref_val(I, h, yref, hyps) if yref else ZERO
                        nv = Seq(q.elty, q.len, ('sym', ('junk', mark, cid, path), None), (('cp', y, x - y, Seq('u8', C(MAXLEN * 4), S, ()), gh.val),))
                    elif hy.mode == 'keep':
                        side, p = hy.data
                        lo, n = (p, q.len - p) if side == 'hi' else (ZERO, p)
                        nv = Seq(q.elty, q.len, ('sym', ('havoc', mark, cid, path), hy.ty), (('cp', lo, n, q, lo),))
                        h.taint = h.taint + (('havoc seq', fr.body['path']),)
                    else:
                        nv = Seq(q.elty, q.len, ('sym', ('havoc', mark, cid, path), hy.ty), ())
                        if not hy.free: h.taint = h.taint + (('havoc seq', fr.body['path']),)
                    hy.val = nv
                else:
                    if hy.data is None: hy.data = havoc_any(I, hy.v0, mark, cid, path)
                    nv = hy.val = hy.data
                    h.taint = h.taint + (('havoc', fr.body['path']),)
                v = replace(v, path, nv)
            if cid == SPOS: h.spos = v
            else: h.cells[cid] = v
        if stars['used']: h.ev = s0.ev + (('star', stars['lid']),)
        F = h.F
        f = F.assume(ge(kap))
        h.F = f[0] if f else F
        for cid, path, hy in windows():
            y = ref_val(I, h, hy.data[3], hyps) if hy.data[3] else ZERO
            if hy.data[3]:
                r = h.F.assume(ge(ref_val(I, h, hy.data[1], hyps) - y))
                if len(r) == 1: h.F = r[0]
            if hy.spec:
                # speculative relation: the window ends at the current position of the input stream
                r = h.F.assume(eq(hy.data[2].val + ref_val(I, h, hy.data[1], hyps) - y - h.spos))
                if len(r) == 1: h.F = r[0]
                else: hy.spec = False
        for c in list(rels) + [x for x in (cands or [])]:
            cond = c if isinstance(c, tuple) else ge(c)
            r = h.F.assume(cond)
            if len(r) == 1: h.F = r[0]
            elif len(r) == 0: h.F = h.F.copy(); h.F.dead = True
        return h

    def ghosts():
        return [hy.data[2] for ps in hyps.values() for hy in ps.values() if hy.kind == 'seq' and hy.mode == 'window']

    def windows():
        return [(cid, path, hy) for cid, ps in hyps.items() for path, hy in ps.items() if hy.kind == 'seq' and hy.mode == 'window']

    def all_polys():
        out = []
        for cid, ps in hyps.items():
            for path, hy in ps.items():
                if hy.kind == 'poly': out.append(((cid, path), hy))
        for cid, ps in hyps.items():
            for path, hy in ps.items():
                if hy.kind == 'seq' and hy.mode == 'window': out.append(((cid, path, 'ghost'), hy.data[2]))
        return out

    def back_value(b, key):
        if len(key) == 3:
            hy = hyps[key[0]][key[1]]
            S, xref, gh, yref = hy.data
            q = at(getcell(I, b, key[0]), key[1])
            x = ref_val(I, b, xref, None)
            segs = window_segs(I, b, q, x, S, ref_val(I, b, yref, None) if yref else None)
            if segs is None: return None
            return segs
        return at(getcell(I, b, key[0]), key[1])

    # exploration from the entry state
    back, other = run_iter(I, s0, fr, cfg, head, stops)
    b0 = [o[0] for o in back]
    discard()
    while True:
        rounds += 1
        if rounds > 40: raise Unsup('loop analysis did not converge')
        if rounds == 1:
            h, backs = s0, b0
        else:
            discard()
            h = build()
            if h.F.dead: raise Unsup('contradictory loop invariant')
            back, other = run_iter(I, h, fr, cfg, head, stops)
            backs = [o[0] for o in back]
            if DEBUG: print('loop: round', rounds, 'k range', h.F.interval(kap), [(o[1], o[0].F.interval(kap)) for o in back + other])
        changed = False
        # -------- structural differences
        keys = {SPOS}
        for b in backs:
            for cid in b.cells:
                if cid[0] == 'L' and cid[1] == fr.fid and cid[2] not in live: continue
                keys.add(cid)
        first_changed = {}
        for cid in keys:
            if cid != SPOS and cid not in h.cells:
                if cid[0] in ('T', 'L', 'k'): continue
                try: getcell(I, s0, cid)
                except Unsup: continue
                if cid not in h.cells: h.cells[cid] = s0.cells[cid]
            known = hyps.get(cid, {})
            for b in backs:
                if cid != SPOS and cid not in b.cells: continue
                out = []
                diff(getcell(I, h, cid), getcell(I, b, cid), b.F, (), out, known)
                for path, kind, val in out:
                    if path in known: continue
                    # drop hypotheses below the new position
                    for p in list(known):
                        if p[:len(path)] == path: del known[p]
                    hy = Hyp(kind, None, None)
                    if kind == 'poly':
                        hy.mode = 'affine'
                        d = delta(b, b.F.norm(val), h.F.norm(at(getcell(I, h, cid), path)))
                        hy.data = s0.F.norm(d)
                        if rounds > 1 or not invariant(d, s0, ka, mark, allow_k=False):
                            hy.mode = 'phi'; hy.data = None
                        first_changed[(cid, path)] = hy
                    elif kind == 'seq':
                        hy.mode = 'ph'
                        if free_contents(val):
                            # replaced as a whole by contents nothing is known about: generalising loses nothing
                            hy.mode = 'havoc'; hy.free = True
                    elif kind == 'any':
                        hh = at(getcell(I, h, cid), path)
                        if DEBUG: print('loop: unknown value', cid, path, str(hh)[:200], '->', str(val)[:200])
                        hy.mode = 'havoc'
                    known[path] = hy; hyps[cid] = known
                    changed = True
        if not stars['used'] and any(b.ev != h.ev for b in backs): stars['used'] = True; changed = True
        if rounds == 1:
            if not backs:
                # not a loop from this state
                back, other = run_iter(I, s0, fr, cfg, head, stops)
                return other
            needpeel = any((hy.kind == 'any' and not state_enum(I, at_safe(getcell(I, s0, cid), p))) or hy.kind == 'bool' for cid, ps in hyps.items() for p, hy in ps.items())
            if needpeel and peel > 0 and len(backs) <= 4:
                discard()
                back, other = run_iter(I, s0, fr, cfg, head, stops)
                res = list(other)
                for o in back: res.extend(general(I, o[0], fr, cfg, head, stops, peel - 1))
                return res
            continue
        if not backs:
            # no round of the loop gets to its end
            if len(I.stuck) > S0: raise Unsup(I.stuck[S0][0])
            return other
        # -------- check hypotheses
        bad_struct = changed
        incs = {}
        for key, hy in all_polys():
            if hy.val is None: changed = True; continue
            ds = []
            fail = False
            for b in backs:
                try: bv = back_value(b, key)
                except (Unsup, Split): bv = None
                if bv is None or not isinstance(bv, Poly): fail = True; break
                ds.append(b.F.norm(bv))
            if fail:
                if len(key) == 3:
                    w = hyps[key[0]][key[1]]
                    window_fail.add((key[0], key[1], w.data[1], w.data[3])); w.mode = 'havoc'; w.data = None; changed = True
                else: raise Unsup('loop state of changing shape')
                continue
            incs[key] = ds
            if hy.mode == 'affine':
                nxt = hy.v0 + hy.data * (kap + 1)
                if all(eqv(b, v, nxt) for b, v in zip(backs, ds)): continue
                dd = [delta(b, b.F.norm(v), hy.val) for b, v in zip(backs, ds)]
                d0 = dd[0]
                if all(x == d0 for x in dd) and invariant(d0, s0, ka, mark, allow_k=True):
                    if occurs(ka.id, d0):
                        if any(isinstance(x, Poly) and occurs(ka.id, x) for x in [hy.val]) and d0.deg() > 1 and False: pass
                        hy.mode = 'psum'; hy.data = I.psum_template(ka, d0)
                    elif hy.data != d0: hy.data = d0
                    else: hy.mode = 'phi'; hy.data = None
                else: hy.mode = 'phi'; hy.data = None
                changed = True
            elif hy.mode == 'psum':
                nxt = hy.v0 + mk_psum(hy.data, kap + 1)
                if all(eqv(b, v, nxt) for b, v in zip(backs, ds)): continue
                hy.mode = 'phi'; hy.data = None; changed = True
            else:
                dd = [delta(b, v, hy.val) for b, v in zip(backs, ds)]
                if rounds <= 6 and not changed and hy.ty is None and all(x == dd[0] for x in dd) and invariant(dd[0], s0, ka, mark, allow_k=True, phis=phi_ids(all_polys())):
                    hy.ty = 'tried'
                    if occurs(ka.id, dd[0]): hy.mode = 'psum'; hy.data = I.psum_template(ka, dd[0])
                    else: hy.mode = 'affine'; hy.data = s0.F.norm(dd[0])
                    changed = True
        for cid, path, hy in windows():
            if not hy.spec: continue
            ds = incs.get((cid, path, 'ghost'))
            if ds is None: continue
            for b, d in zip(backs, ds):
                if not b.F.prove_eq(d + ref_val(I, b, hy.data[1], None) - (ref_val(I, b, hy.data[3], None) if hy.data[3] else ZERO), b.spos):
                    hy.spec = False; changed = True; break
        # candidates that are not inductive are dropped first: contents are only compared under inductive facts
        if cands is not None and not changed:
            pol = all_polys()
            dropped = False
            keep = []
            for c in cands:
                okc = True
                for bi, b in enumerate(backs):
                    pairs = [(ka, kap + 1)] + [(hy.data.single(), incs[key][bi]) for key, hy in pol if hy.mode == 'phi' and hy.data is not None]
                    g = subst_many(c, pairs)
                    if not b.F.proves(ge(g)): okc = False; break
                if okc: keep.append(c)
                else: rejected.add(c); dropped = True
            if dropped:
                cands = keep
                # the facts of the back states were computed under the dropped candidates as well
                continue
        # sequences
        for cid, ps in list(hyps.items()):
            for path, hy in list(ps.items()):
                if hy.kind != 'seq': continue
                if hy.val is None: changed = True; continue
                if hy.free:
                    for b in backs:
                        q = at(getcell(I, b, cid), path)
                        if not free_contents(q) and q != hy.val: hy.free = False; changed = True
                if hy.mode in ('ph', 'loop'):
                    ws = []
                    okw = True
                    hv = hy.val
                    for b in backs:
                        q = at(getcell(I, b, cid), path)
                        if not isinstance(q, Seq) or q.base != hv.base or len(q.log) < len(hv.log) or not same_prefix(hv, q):
                            okw = False; break
                        ws.append(norm_log(b, q.log[len(hv.log):]))
                    if okw and all(w == ws[0] for w in ws) and ws[0] and invariant(ws[0], s0, ka, mark, allow_k=True, phis=phi_ids(all_polys())):
                        W = subst_deep(ws[0], lambda p: subst_atom(p, ka, A(kv)))
                        W = tile(I, s0, hy.v0, W, kv)
                        if hy.mode == 'ph' or hy.data != W:
                            hy.upd += 1
                            if hy.mode == 'loop' and hy.upd > 5: okw = False
                            else:
                                hy.mode = 'loop'; hy.data = W; changed = True
                    elif okw and ws and all(not w for w in ws): pass
                    else: okw = False
                    if DEBUG and not okw: print('loop: writes', rounds, cid, path, len(ws), [str(w)[-330:] for w in ws], [b.F.show()[-300:] for b in backs], [(x[0], x[1]) for x in I.stuck[S0:]][:2])
                    if not okw:
                        if not changed or rounds > 3 or hy.mode == 'loop':
                            pick_window(I, s0, b0, h, backs, cid, path, hy, hyps, window_fail)
                            changed = True
                elif hy.mode == 'keep' and not changed:
                    pol = all_polys()
                    for bi, b in enumerate(backs):
                        pairs = [(ka, kap + 1)] + [(h2.data.single(), incs[key][bi]) for key, h2 in pol if h2.mode == 'phi' and h2.data is not None]
                        if not kept(I, h, b, hy, at(getcell(I, b, cid), path), subst_many(hy.data[1], pairs)):
                            hy.mode = 'havoc'; hy.data = None; changed = True; break
        if changed:
            cands = None; rels = []
            continue
        # -------- relations and candidates
        if cands is None:
            rels = relations(I, s0, backs, all_polys(), incs, kap, ka)
            cands = []
            for c in candidates(I, s0, h, backs, all_polys(), hyps, kap, ka, mark):
                if c in rejected or c in cands: continue
                init = initial(c, all_polys(), ka, s0)
                if s0.F.prove_ge(init): cands.append(c)
            if cands or rels: continue
        # -------- contents of unknown shape: a part that is not written yet may be unchanged
        again = False
        for cid, ps in hyps.items():
            for path, hy in ps.items():
                if hy.kind != 'seq' or hy.mode != 'havoc' or hy.free: continue
                for c in boundaries(I, s0, h, backs, cid, path, hy, ka, mark, phi_ids(all_polys())):
                    if (cid, path, c) in window_fail: continue
                    window_fail.add((cid, path, c))
                    init = initial(c[1], all_polys(), ka, s0)
                    if not (s0.F.prove_ge(init) and s0.F.prove_ge(hy.v0.len - init)): continue
                    if not (h.F.prove_ge(c[1]) and h.F.prove_ge(hy.v0.len - c[1])): continue
                    hy.mode = 'keep'; hy.data = c; again = True
                    break
        if again: continue       # (the candidates stay: the head state only gets more precise)
        break
    if stars['used']:
        n0 = len(h.ev)
        alts = []
        for b in backs:
            e = b.ev[n0:]
            if e not in alts: alts.append(e)
        _i.LOOPS[stars['lid']] = alts
    uni = universal(s0, h, backs, kap, ka, kv, mark, phi_ids(all_polys()))
    if uni:
        for o in other: o[0].uni = o[0].uni + ((kv, kap, uni),)
    I.loopinfo.append({'fn': fr.body['path'], 'head': head, 'entry': s0, 'h': h, 'backs': backs, 'k': kap, 'hyps': hyps,
                       'exits': other, 'chain': I.chain(fr), 'cands': cands or [], 'rels': rels, 'lid': stars['lid'] if stars['used'] else None})
    return other

def universal(s0, h, backs, kap, ka, kv, mark, phis):
    """Conditions that hold in every completed iteration, as statements over the iteration number (kv).
    Nested statements have the form ('all', kv', K', conditions)."""
    if not backs: return ()
    b = backs[0]
    out = []
    def fixed(x): return invariant(x, s0, ka, mark, allow_k=True, phis=phis)
    for p in b.F.nes:
        if p not in h.F.nes: out.append(ne(p))
    for p in b.F.ges:
        if p not in h.F.ges: out.append(ge(p))
    for i, (lo, hi) in b.F.rng.items():
        if h.F.rng.get(i) == (lo, hi): continue
        at = ATOMS[i]
        if hi is not None and (at.hi is None or hi < at.hi): out.append(ge(C(hi) - A(at)))
        if lo is not None and (at.lo is None or lo > at.lo): out.append(ge(A(at) - lo))
    for i, v in b.F.sub.items():
        if i not in h.F.sub: out.append(eq(A(ATOMS[i]) - v))
    out = [c for c in out[:80] if fixed(c) and all(x.F.proves(c) for x in backs[1:])]
    for e in b.uni[len(s0.uni):]:
        n = ('all', e[0], b.F.norm(e[1]), subst_deep(e[2], b.F.norm))
        if fixed(n[2]) and fixed(n[3]) and all(any(len(f) == 3 and same_uni(x, ('all', f[0], x.F.norm(f[1]), subst_deep(f[2], x.F.norm)), n) for f in x.uni[len(s0.uni):]) for x in backs[1:]): out.append(n)
    return tuple(subst_deep(c, lambda p: subst_atom(p, ka, A(kv))) for c in out)
def same_uni(x, a, b):
    if not x.F.prove_eq(a[2], b[2]): return False
    return subst_deep(a[3], lambda p: subst_atom(p, a[1], A(b[1]))) == b[3]

def eqv(b, x, y):
    x, y = b.F.norm(x), b.F.norm(y)
    return x == y or (b.F.prove_ge(x - y) and b.F.prove_ge(y - x))

def phi_ids(pol): return {hy.data.single().id for _, hy in pol if hy.mode == 'phi' and isinstance(hy.data, Poly) and hy.data.single() is not None}

def invariant(x, s0, ka, mark, allow_k, phis=()):
    """Does x only mention symbols that are fixed throughout the loop (and the iteration count)?"""
    s = set(); deep_syms(x, s)
    for i in s:
        a = ATOMS[i]
        if a is ka:
            if not allow_k: return False
            continue
        if i in phis or is_fresh_after(a, mark):
            if DEBUG: print('loop: not invariant', show_atom(a))
            return False
        if a.kind == 'sym' and has_mark(a.args[0], mark): return False
    return True
def has_mark(k, mark):
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] in ('junk', 'havoc', 'loopbool'): return True
        return any(has_mark(x, mark) for x in k)
    return False

def free_contents(v):
    return isinstance(v, Seq) and v.log == () and v.base[0] == 'sym' and isinstance(v.base[1], tuple) and v.base[1][:1] == ('recvbuf',)

def phi_range(I, s0, hy):
    lo, hi = s0.F.interval(hy.v0)
    return (0 if lo is not None and lo >= 0 else None), None

def same_prefix(hv, q):
    return q.log[:len(hv.log)] == hv.log

def norm_log(b, log):
    return tuple(subst_deep(e, b.F.norm) for e in log)

def havoc_any(I, v0, mark, cid, path):
    if isinstance(v0, Agg):
        c = getattr(I.P, '_idbyname', None)
        if c is None:
            c = I.P._idbyname = {}
            for i, t in enumerate(I.P.types):
                n = t.get('name')
                if n is not None and n not in c: c[n] = i
        tid = c.get(v0.ty)
        if tid is not None: return Opq(tid, ('havoc', mark, cid, path))
    if isinstance(v0, Opq): return Opq(v0.ty, ('havoc', mark, cid, path))
    raise Unsup(f'loop state of changing shape ({type(v0).__name__})')

def ref_val(I, s, xref, hyps):
    cid, path = xref
    if hyps is not None:
        hy = hyps.get(cid, {}).get(path)
        if hy is not None: return hy.val
    return at(getcell(I, s, cid), path)

def window_segs(I, s, q, x, S=None, y=None):
    """If q[y..x] is a window into one base: (offset) [S given] or (S, offset)."""
    if not isinstance(x, Poly): return None
    if y is None: y = ZERO
    elif not isinstance(y, Poly) or not s.F.prove_ge(x - y) or not s.F.prove_ge(y): return None
    segs = None
    states = [s]
    res = None
    n = 0
    while states:
        t = states.pop()
        n += 1
        if n > 40: return None
        if t.F.infeasible(): continue
        try:
            yy = t.F.norm(y)
            sg = I.seq_extract(t, q, yy, t.F.norm(x - yy))
        except Split as sp:
            states.extend(I.apply_split(t, sp.alts)); continue
        except Unsup: return None
        if len(sg) == 0: continue      # empty window: any offset
        cs = []
        for g in sg:
            if g[0] == 'v':
                r = vals_window([g])
                if r is None: return None
                g = ('c', r[0], r[1], C(len(g[1])))
            if g[0] != 'c': return None
            cs.append(g)
        for g, g2 in zip(cs, cs[1:]):
            if g[1] != g2[1] or not t.F.prove_eq(g[2] + g[3], g2[2]): return None
        r = (cs[0][1], cs[0][2])
        if res is None: res = r
        elif res[0] != r[0] or not (t.F.prove_eq(res[1], r[1]) or s.F.prove_eq(res[1], r[1])): return None
    if res is None: return None
    if S is not None:
        return res[1] if res[0] == S else None
    return res

def vals_window(sg):
    """Explicit values that are consecutive elements of one base."""
    vs = [v for x in sg for v in x[1]]
    first = None
    for i, v in enumerate(vs):
        a = v.single() if isinstance(v, Poly) else None
        if a is None or a.kind != 'sym': return None
        k = a.args[0]
        if not (isinstance(k, tuple) and len(k) == 3 and k[1] == 'el'): return None
        base = ('sym', k[0], None)
        if first is None: first = (base, k[2])
        elif first[0] != base or (k[2] - first[1] - i).const() != 0: return None
    return first

def poly_positions(v, path=()):
    if isinstance(v, Poly): yield path; return
    if isinstance(v, (Agg,)):
        for i, f in enumerate(v.fields): yield from poly_positions(f, path + (2, i))

def tile(I, s0, q0, ents, kv):
    """Orders the writes of an iteration by position and fills gaps between them with the old contents."""
    fs = s0.F.assume(ge(A(kv)))
    if len(fs) != 1: return ents
    F = fs[0]
    def end(x): return x[1] + (len(x[2]) if x[0] == 'vals' else x[2])
    es = []
    for x in ents:
        if x[0] not in ('vals', 'cp'): return ents
        i = len(es)
        while i > 0 and F.prove_ge(es[i - 1][1] - end(x)) and not F.prove_ge(x[1] - end(es[i - 1])): i -= 1
        es.insert(i, x)
    out = []
    for x in es:
        if out:
            d = F.norm(x[1] - end(out[-1]))
            if d.const() != 0:
                if not F.prove_ge(d): return ents
                if not F.prove_eq(d, ZERO): out.append(('cp', end(out[-1]), d, q0, end(out[-1])))
        out.append(x)
    s = out[0][1]
    d = F.norm(subst_atom(s, kv, A(kv) + 1) - end(out[-1]))
    if d.const() != 0:
        if not F.prove_ge(d): return ents
        if not F.prove_eq(d, ZERO): out.append(('cp', end(out[-1]), d, q0, end(out[-1])))
    return tuple(out)

def single_writes(I, h, backs, cid, path):
    """The loop only writes single elements: nothing is moved or received, so that no window moves over the contents."""
    q = at(getcell(I, h, cid), path)
    n = 0
    for b in backs:
        x = at(getcell(I, b, cid), path)
        if not isinstance(x, Seq) or not isinstance(q, Seq) or x.base != q.base or len(x.log) < len(q.log): return False
        if any(e[0] != 'vals' for e in x.log[len(q.log):]): return False
        n += len(x.log) - len(q.log)
    return n > 0

def pick_window(I, s0, b0, h, backs, cid, path, hy, hyps, failed):
    v = getcell(I, s0, cid)
    q0 = at(v, path)
    if single_writes(I, h, backs, cid, path): refs = None
    else: refs = [(cid, p) for p in poly_positions(v)]
    for c2, ps in hyps.items() if refs is not None else ():
        for p2, h2 in ps.items():
            if h2.kind == 'poly' and (c2, p2) not in refs and c2 != SPOS: refs.append((c2, p2))
    for yref in [None] + refs if refs is not None else ():
        for xref in refs:
            if xref == yref or (cid, path, xref, yref) in failed: continue
            try:
                x0 = at(getcell(I, s0, xref[0]), xref[1])
                y0 = at(getcell(I, s0, yref[0]), yref[1]) if yref else None
            except Exception: continue
            if not isinstance(x0, Poly) or (yref and not isinstance(y0, Poly)): continue
            w = window_segs(I, s0, q0, x0, None, y0)
            if w is None: failed.add((cid, path, xref, yref)); continue
            okb = True
            for b in b0:
                try:
                    xb = at(getcell(I, b, xref[0]), xref[1]); qb = at(getcell(I, b, cid), path)
                    yb = at(getcell(I, b, yref[0]), yref[1]) if yref else None
                except Exception: okb = False; break
                wb = window_segs(I, b, qb, xb, w[0], yb)
                if wb is None: okb = False; break
            if not okb: failed.add((cid, path, xref, yref)); continue
            gh = Hyp('poly', 'phi', w[1]); gh.data = fresh('ghost', None, None); gh.val = gh.data
            hy.mode = 'window'; hy.data = (w[0], xref, gh, yref)
            hy.spec = s0.F.prove_eq(w[1] + x0 - (y0 if yref else ZERO), s0.spos)
            return True
    hy.mode = 'havoc'; hy.data = None
    b = q0.base
    hy.ty = b[2] if b[0] == 'sym' else None
    return False

def state_enum(I, v):
    """The changing value is an enumeration of more than two states without fields."""
    if not isinstance(v, Agg) or v.fields: return False
    t = I.type_by_name(v.ty)
    return t is not None and t.get('kind') == 'enum' and len(t['variants']) > 2 and not any(x['fields'] for x in t['variants'])

def boundaries(I, s0, h, backs, cid, path, hy, ka, mark, phis):
    """Ends of the regions written in one iteration, as functions of the values at the loop head."""
    out = []
    n0 = len(hy.val.log)
    for b in backs:
        q = at(getcell(I, b, cid), path)
        if not isinstance(q, Seq) or q.base != hy.val.base: return []
        for e in q.log[n0:]:
            if e[0] == 'vals': n = C(len(e[2]))
            elif e[0] == 'cp': n = e[2]
            else: continue
            for c in (('hi', e[1]), ('lo', e[1] + n)):
                if c not in out and head_only(c[1], ka, mark, phis): out.append(c)
    out = out[:8]
    if single_writes(I, h, backs, cid, path):
        # at least what the loop has not come to yet
        out += [c for c in [('hi', A(ka))] + [(d, A(ATOMS[i])) for i in sorted(phis) for d in ('hi', 'lo')] if c not in out][:8]
    return out
def head_only(p, ka, mark, phis):
    s = set(); deep_syms(p, s)
    for i in s:
        a = ATOMS[i]
        if a is ka or i in phis: continue
        if is_fresh_after(a, mark) or (a.kind == 'sym' and has_mark(a.args[0], mark)): return False
    return True
def kept(I, h, b, hy, q, p):
    """The part of the contents beyond the boundary p is still the one before the loop."""
    import spec
    if not isinstance(q, Seq): return False
    side = hy.data[0]
    def f(s):
        lo, n = (p, q.len - p) if side == 'hi' else (ZERO, p)
        if not s.F.prove_ge(n): return False
        n = s.F.norm(n)
        return spec.same_seq(I, s, I.seq_extract(s, q, lo, n), I.seq_extract(s, hy.v0, lo, n))
    try: return spec.every(I, b, f)
    except (Unsup, Split): return False

def relations(I, s0, backs, pol, incs, kap, ka):
    """Linear relations between the unknowns implied by their increments."""
    ph = [(key, hy) for key, hy in pol if hy.mode == 'phi' and hy.data is not None]
    if not ph: return []
    n = len(ph) + 1
    rows = []
    for bi in range(len(backs)):
        monos = {}
        F = backs[bi].F
        for j, (key, hy) in enumerate(ph):
            d = F.norm(incs[key][bi]) - F.norm(hy.val)
            for m, c in d.t.items(): monos.setdefault(m, [0] * n)[j] = c
        monos.setdefault((), [0] * n)[n - 1] = 1
        rows.extend(monos.values())
    out = []
    for v in nullspace(rows, n):
        if sum(1 for x in v if x) < 2: continue
        p = kap * v[n - 1]
        for j, (key, hy) in enumerate(ph):
            p = p + (hy.val - hy.v0) * v[j]
        out.append(('eq', s0.F.norm(p)))
    return out

def initial(c, pol, ka, s0):
    pairs = [(ka, ZERO)] + [(hy.data.single(), hy.v0) for _, hy in pol if hy.mode == 'phi' and hy.data is not None]
    return s0.F.norm(subst_many(c, pairs))

def candidates(I, s0, h, backs, pol, hyps, kap, ka, mark):
    out = []
    phis = [hy for _, hy in pol if hy.mode == 'phi' and hy.data is not None]
    phid = {hy.data.single().id for hy in phis}
    # (a) guards of the iteration, shifted to the head
    for b in backs[:6]:
        facts = [g for g in b.F.ges if g not in s0.F.ges]
        for i, (lo, hi) in b.F.rng.items():
            if i == ka.id:
                if hi is not None and hi < MAXLEN: facts.append(C(hi) - kap)
        for g in facts:
            at_ = set(); deep_syms(g, at_)
            if ka.id in at_ and not (at_ & phid):
                c = subst_atom(g, ka, kap - 1)
                out.append(c)
            elif at_ & phid: out.append(g)
    # bounds on interesting quantities
    lens = []
    def addlen(p):
        if isinstance(p, Poly) and p not in lens and len(lens) < 24: lens.append(p)
    for cid, v in s0.cells.items():
        if isinstance(v, Slice): addlen(v.len)
        elif isinstance(v, Seq): addlen(v.len)
        elif isinstance(v, BufV): addlen(v.seq.len)
        elif isinstance(v, Poly): addlen(v)
        elif isinstance(v, It):
            for f in v.fields:
                if isinstance(f, Slice): addlen(f.len)
                elif isinstance(f, Poly): addlen(f)
        elif isinstance(v, Agg):
            work = [(v, 0)]
            while work:
                w, d = work.pop(0)
                for f in w.fields:
                    if isinstance(f, Seq): addlen(f.len)
                    elif isinstance(f, Opq) and I.P.types[f.ty].get('k') == 'param': addlen(sym((f.key, 'buflen'), 0, MAXLEN))
                    elif isinstance(f, BufV): addlen(f.seq.len)
                    elif isinstance(f, Agg) and d < 4: work.append((f, d + 1))
    vals = []
    for key, hy in pol:
        if hy.val is not None and hy.val not in vals: vals.append(hy.val)
    for v in vals:
        s_ = set(); deep_syms(v, s_)
        for l in lens: out.append(s0.F.norm(l) - v)
        if any(i in phid for i in s_) :
            for c in (1, 2, 3, 4, 7, 8, 255, 65535): out.append(C(c) - v)
    for hy in phis:
        out.append(hy.val - hy.v0); out.append(hy.v0 - hy.val); out.append(hy.val)
    for i, v in enumerate(vals):
        for w in vals:
            if w is not v: out.append(v - w)
    # order and deduplicate
    seen = set(); r = []
    for c in out:
        if c.const() is not None or c in seen: continue
        seen.add(c); r.append(c)
    return r[:160]
