"""Obligations, reports and the vocabulary in which the rules are written: results, packets, frames, contents."""
import re
from values import *
from num import *
from contracts import *
from models import vkey, content, to_bytes, deref
import interp

class Rep:
    """Obligations of (a part of) a check. Failing obligations are violations unless the abstract state they were
    evaluated in is imprecise (tainted): then they are counted as undecided."""
    def __init__(self):
        self.ob = 0; self.ok = 0; self.viol = {}; self.und = {}; self.samples = []; self.fns = set(); self.paths = 0
        self.callsites = set(); self.roots = set(); self.notes = []; self.asserts = 0; self.known = {}; self.pathv = set(); self.norefute = False; self.good = set()
    def add(self, o):
        self.ob += o.ob; self.ok += o.ok
        for k, v in o.viol.items(): self.viol.setdefault(k, v)
        for k, v in o.und.items(): self.und.setdefault(k, v)
        if len(self.samples) < 12: self.samples += o.samples[:12 - len(self.samples)]
        self.fns |= o.fns; self.callsites |= o.callsites; self.roots |= o.roots; self.paths += o.paths; self.asserts += o.asserts
        self.notes += [n for n in o.notes if n not in self.notes]
        self.pathv |= o.pathv
        return self
    def saw(self, R):
        """Counts what an analysis run covered."""
        self.roots.add(R.root['path']); self.fns |= R.I.functions; self.callsites |= R.I.callsites
        self.paths += len(R.outs); self.asserts += R.I.stats['asserts']
        if R.error: self.und[f'{short(R.root["path"])}: analysis incomplete'] = R.error[:200]
        for m, f, b, ch in R.I.stuck[:4]:
            self.und[f'{short(f)}: construct not supported'] = m[:200]
    def some(self, R, cond, key, detail=''):
        """At least one path with some property exists; undecided if paths were given up."""
        I = getattr(R, 'I', R)
        if not cond and (getattr(R, 'error', None) or I.stuck):
            self.ob += 1; self.und[key] = 'paths were given up'; return False
        return self.must(bool(cond), key, detail)
    def must(self, cond, key, detail='', st=None, fn=None):
        self.ob += 1
        r = cond
        if callable(cond):
            try: r = cond()
            except (Unsup, Split, RecursionError) as e:
                self.und[key] = 'not decided: ' + str(e)[:160]; return False
        if r:
            self.ok += 1; self.good.add(key)
            if len(self.samples) < 6 and not any(s.startswith(key) for s in self.samples): self.samples.append(key + (': ' + str(detail)[:160] if detail else ''))
            return True
        if st is not None and st.taint:
            self.und[key] = 'imprecise state: ' + str(st.taint[:2])[:160]
            return False
        self.viol[key] = str(detail)[:600]
        if st is not None: self.pathv.add(key)
        return False

def short(path):
    p = re.sub(r'<impl ([^<>]|<[^<>]*>)*>::', lambda m: m.group(0), path)
    p = p.replace('dynamixel2::', '').replace('<SerialPort, Buffer>', '')
    p = re.sub(r'::<impl (?:[\w:]+::)?(\w+)>', r'::\1', p)
    return p

# ------------------------------------------------------------------ case distinctions inside a rule
def every(I, st, fn, depth=0):
    """fn holds in st; case distinctions requested by fn are made, and fn has to hold in every case."""
    try: return bool(fn(st))
    except Split as sp:
        if depth > 24: raise Unsup('case distinction depth')
        for s in I.apply_split(st, sp.alts):
            if s.F.infeasible(): continue
            if not every(I, s, fn, depth + 1): return False
        return True

# ------------------------------------------------------------------ types
def type_of(I, name):
    for t in I.P.types:
        if t.get('k') == 'adt' and t.get('name') == name: return t
    return None
_tcache = {}
def adt(I, v):
    k = (id(I.P), v.ty)
    t = _tcache.get(k)
    if t is None: t = _tcache[k] = type_of(I, v.ty)
    return t
def vname(I, v):
    """('Enum', 'Variant') of an enum value, ('Struct', None) of a struct."""
    t = adt(I, v)
    if t is None: return (v.ty, None)
    n = t['path'].split('::')[-1]
    return (n, t['variants'][v.variant]['name'] if t['kind'] == 'enum' else None)
def field(I, v, name):
    t = adt(I, v)
    for i, f in enumerate(t['variants'][v.variant]['fields']):
        if f['name'] == name: return v.fields[i]
    raise Missing(f'field {name} of {t["path"]}')
def unfold(I, v):
    """Error chain: list of variant names and the leaf value."""
    chain = []
    while isinstance(v, Agg):
        n, var = vname(I, v)
        if var is None: break
        chain.append(var)
        if len(v.fields) != 1: break
        v = v.fields[0]
    return chain, v
class Res:
    """Classified result value of an operation."""
    def __init__(self, I, v, iterator=False):
        self.none = False; self.v = v; self.ok = None; self.chain = []; self.leaf = None
        if isinstance(v, Agg):
            n = vname(I, v)
            if n[0] == 'Option':
                if n[1] == 'None': self.none = True; return
                v = v.fields[0]
                n = vname(I, v) if isinstance(v, Agg) else None
            if n and n[0] == 'Result':
                if n[1] == 'Ok': self.ok = True; self.val = v.fields[0]
                else:
                    self.ok = False
                    self.chain, self.leaf = unfold(I, v.fields[0])
                    self.chain = [c for c in self.chain if c not in ('ReadError', 'WriteError')]
    def err(self, *names): return self.ok is False and tuple(self.chain[:len(names)]) == names

# ------------------------------------------------------------------ contents
def norm_seg(st, s):
    return subst_deep(s, st.F.norm) if has_poly(s) else s

def same_val(I, st, x, y):
    if isinstance(x, Poly) and isinstance(y, Poly): return st.F.prove_eq(x, y)
    if I.is_bool(x) or I.is_bool(y):
        if x is y: return True
        if st.F.nkey(x) == st.F.nkey(y): return True
        dx, dy = st.F.decide(x), st.F.decide(y)
        if dx is not None and dy is not None: return dx == dy
        return st.F.proves(c_or(c_and(x, y), c_and(c_not(x), c_not(y)))) if False else iff(st, x, y)
    if x == y: return True
    try: return same_key(I, st, vkey(I, st, x), vkey(I, st, y))
    except Unsup: return False

def iff(st, x, y):
    for f in st.F.assume(x):
        if not f.infeasible() and f.decide(y) is not True: return False
    for f in st.F.assume(c_not(x)):
        if not f.infeasible() and f.decide(y) is not False: return False
    return True

def same_key(I, st, x, y):
    """Structural equality modulo provable equality of the numbers inside."""
    if x is y: return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        if x == y or st.F.norm(x) == st.F.norm(y): return True
        if st.F.prove_eq(x, y): return True
        a, b = x.single(), y.single()
        return a is not None and b is not None and a.kind == 'sym' and b.kind == 'sym' and same_key(I, st, a.args, b.args)
    if isinstance(x, V) and isinstance(y, V):
        return type(x) is type(y) and same_key(I, st, x.parts(), y.parts())
    if isinstance(x, tuple) and isinstance(y, tuple):
        if segs_like(x) and segs_like(y): return same_seq(I, st, x, y)
        return len(x) == len(y) and all(same_key(I, st, p, q) for p, q in zip(x, y))
    return x == y
def segs_like(x): return len(x) > 0 and all(isinstance(s, tuple) and len(s) >= 2 and s[0] in ('v', 'c', 'r', 'l') and (s[0] == 'v' or len(s) >= 3) for s in x)

def el(I, st, base, i):
    q = Seq('u8', C(MAXLEN * 4), base, ())
    return I.base_get(st, q, st.F.norm(i))

def same_seq(I, st, a, b, why=None):
    """Equality of two contents (tuples of segments). May raise Split."""
    F = st.F
    a = list(a); b = list(b)
    def fail(m):
        if why is not None: why.append(m)
        return False
    def empty(s):
        n = I.seg_len(s)
        if F.prove_ge(-n): return True
        if F.prove_ge(n - 1): return False
        if s[0] == 'l' and F.prove_ge(s[2] - 1): return False
        if s[0] == 'l':
            raise Split([ge(-s[2]), ge(s[2] - 1)])
        raise Split([ge(-n), ge(n - 1)])
    guard = 0
    while True:
        guard += 1
        if guard > 400: raise Unsup('content comparison')
        while a and empty(a[0]): a.pop(0)
        while b and empty(b[0]): b.pop(0)
        if not a or not b:
            if not a and not b: return True
            return fail(f'content {"missing" if a == [] else "unexpected"}: {show_segs((a or b)[:2])}')
        x, y = a[0], b[0]
        if x[0] == 'l' or y[0] == 'l':
            if x[0] != 'l' or y[0] != 'l':
                # items of a loop against a plain run of bytes
                La, Lb = (a, b) if x[0] == 'l' else (b, a)
                lp, o = La[0], Lb[0]
                c = item_len(I, st, lp)
                if o[0] in ('c', 'r') and c is not None and c > 0:
                    n, m = lp[2] * c, I.seg_len(o)
                    if not F.prove_ge(m - n):
                        if F.prove_ge(n - m - 1): return fail(f'{show_segs([x])} instead of {show_segs([y])}')
                        raise Split([ge(m - n), ge(n - m - 1)])
                    k = fresh('k', 0, MAXLEN)
                    for f in F.assume(lt(k, lp[2])):
                        s2 = st.copy(); s2.F = f
                        xs = loop_item(s2, lp, k)
                        t = rest(o, k * c)
                        ys = ((t[0], t[1], t[2], C(c)) if t[0] == 'c' else ('r', t[1], C(c)),)
                        if not every(I, s2, lambda s: same_seq(I, s, xs, ys, why)): return False
                    La.pop(0); Lb[0] = rest(o, n); continue
                if o[0] == 'v' and F.prove_ge(lp[2] - 1):
                    La[0:1] = list(loop_item(st, lp, ZERO)) + [('l', lp[1], lp[2] - 1, tuple(subst_deep(s, lambda p: subst_atom(p, lp[1], A(lp[1]) + 1)) for s in lp[3]))]
                    continue
                return fail(f'{show_segs([x])} instead of {show_segs([y])}')
            if not F.prove_eq(x[2], y[2]): return fail(f'number of items: {x[2]} instead of {y[2]}')
            k = fresh('k', 0, MAXLEN)
            fs = F.assume(lt(k, x[2]))
            for f in fs:
                s2 = st.copy(); s2.F = f
                xs = tuple(norm_seg(s2, subst_deep(s, lambda p: subst_atom(p, x[1], k))) for s in x[3])
                ys = tuple(norm_seg(s2, subst_deep(s, lambda p: subst_atom(p, y[1], k))) for s in y[3])
                if not every(I, s2, lambda s: same_seq(I, s, xs, ys, why)): return False
            a.pop(0); b.pop(0); continue
        if x[0] == 'v' or y[0] == 'v':
            vx, rx = take1(I, st, x)
            vy, ry = take1(I, st, y)
            if not same_val(I, st, vx, vy): return fail(f'byte {show_val(vx)} instead of {show_val(vy)}')
            a[0:1] = [rx] if rx else []
            b[0:1] = [ry] if ry else []
            continue
        n, m = I.seg_len(x), I.seg_len(y)
        if x[0] == 'r' and y[0] == 'r':
            if not same_val(I, st, x[1], y[1]): return fail('fill value')
        elif x[0] == 'c' and y[0] == 'c':
            if not (same_base(I, st, x[1], y[1]) and F.prove_eq(x[2], y[2])): return fail(f'{show_segs([x])} instead of {show_segs([y])}')
        else: return fail(f'{show_segs([x])} instead of {show_segs([y])}')
        if F.prove_eq(n, m): a.pop(0); b.pop(0); continue
        if F.prove_ge(m - n): a.pop(0); b[0] = rest(y, n); continue
        if F.prove_ge(n - m): b.pop(0); a[0] = rest(x, m); continue
        raise Split([ge(m - n), ge(n - m - 1)])

def loop_item(st, lp, k):
    """The content that iteration k of a loop segment produces."""
    return tuple(norm_seg(st, subst_deep(s, lambda p: subst_atom(p, lp[1], k))) for s in lp[3])
def item_len(I, st, lp):
    n = ZERO
    for s in lp[3]: n = n + I.seg_len(s)
    return st.F.norm(n).const()
def rest(s, n):
    if s[0] == 'c': return ('c', s[1], s[2] + n, s[3] - n)
    return ('r', s[1], s[2] - n)
def take1(I, st, s):
    if s[0] == 'v': return s[1][0], (('v', s[1][1:]) if len(s[1]) > 1 else None)
    if s[0] == 'c': return el(I, st, s[1], s[2]), ('c', s[1], s[2] + 1, s[3] - 1)
    if s[0] == 'r': return s[1], ('r', s[1], s[2] - 1)
def same_base(I, st, x, y):
    if x == y: return True
    if x[0] != y[0]: return False
    return same_key(I, st, st.F.nkey(x), st.F.nkey(y))
def show_val(v): return str(v)[:80]
def show_segs(ss): return str(tuple(ss))[:240]
def seq_len(I, segs):
    n = ZERO
    for s in segs: n = n + I.seg_len(s)
    return n

# ------------------------------------------------------------------ frames
def frame(I, st, pid, S):
    """Content of the message with packet ID pid and unstuffed body S (instruction, error, parameters)."""
    k = sym(('nstuff', st.F.nkey(S)), 0, MAXLEN)
    n = seq_len(I, S) + k
    L = n + 2
    lo, hi = to_bytes(I, st, L, 2)
    head = ('v', tuple(C(x) for x in PREFIX) + (pid, lo, hi))
    body = ('c', ('fn', ('stuff', st.F.nkey(S))), ZERO, n)
    return (head, body), L

def split_frame(I, st, segs):
    """(packet ID, everything but the checksum as list of segments, checksum bytes) of a transmitted message."""
    segs = list(segs)
    if not segs or segs[0][0] != 'v' or len(segs[0][1]) < 5: return None
    pid = segs[0][1][4]
    last = segs[-1]
    if last[0] != 'v' or len(last[1]) < 2: return None
    crc = last[1][-2:]
    body = segs[:-1] + ([('v', last[1][:-2])] if len(last[1]) > 2 else [])
    return pid, tuple(body), crc

def check_frame(I, st, segs, S, why):
    p = split_frame(I, st, segs)
    if p is None: why.append('no header or checksum: ' + show_segs(segs[:2])); return False
    pid, body, crc = p
    exp, L = frame(I, st, pid, S)
    if not st.F.prove_ge(C(65535) - L): why.append('length field can overflow'); return False
    if not same_seq(I, st, body, exp, why): return False
    key = crc_of(st, ZERO, I.seg_merge(st, tuple(norm_seg(st, s) for s in body)))
    lo, hi = crc
    w = lo + hi * 256
    w = st.F.norm(w)
    # the checksum value is an atom over the content it was computed from
    c = w.single()
    if c is None or c.kind != 'sym' or not isinstance(c.args[0], tuple) or c.args[0][:1] != ('crc',):
        # lo and hi given as remainder and quotient of the same atom
        c2 = crc_atom(st, lo, hi)
        if c2 is None: why.append(f'checksum bytes {show_val(lo)}, {show_val(hi)}'); return False
        c = c2
    k = c.args[0]
    if not (isinstance(k[1], Poly) and st.F.prove_eq(k[1], ZERO)): why.append('checksum does not start from 0'); return False
    w2 = []
    if not same_seq(I, st, k[2], body, w2): why.append('checksum computed over other bytes: ' + '; '.join(w2)); return False
    return st.F.prove_eq(lo + hi * 256, A(c))

def crc_atom(st, lo, hi):
    for p in (st.F.norm(lo), st.F.norm(hi)):
        for a in all_atoms(p):
            if a.kind == 'sym' and isinstance(a.args[0], tuple) and a.args[0][:1] == ('crc',): return a
    return None
def all_atoms(p, seen=None):
    out = []; work = [p]
    while work:
        x = work.pop()
        if isinstance(x, Poly):
            for a in x.atoms():
                a = a if not isinstance(a, int) else ATOMS[a]
                out.append(a)
                if a.kind != 'sym': work.extend(a.args)
        elif isinstance(x, tuple): work.extend(x)
    return out

# ------------------------------------------------------------------ events
def events(I, ev, star=False):
    """All events including those of loop iterations: (event, in a loop)."""
    for e in ev:
        if e[0] == 'star':
            for alt in interp.LOOPS.get(e[1], ()):
                yield from events(I, alt, True)
        else: yield e, star
def has(I, ev, *kinds): return any(e[0] in kinds for e, _ in events(I, ev))

# ------------------------------------------------------------------ packets
class Pkt:
    """The packet delivered by the n-th wait of a path."""
    def __init__(self, I, n, tid=None):
        if tid is None: tid = find_adt(I.P, 'packet::Packet')
        self.v = Opq(tid, ('pkt', n)); self.I = I
        self.sl = pkt_slice(I, self.v)
        self.len = self.sl.len
    def b(self, i): return ext_byte(self.I, self.sl, C(i))
    @property
    def id(self): return self.b(4)
    @property
    def instr(self): return self.b(7)
    @property
    def err(self): return self.b(8)
    @property
    def nparams(self): return self.len - 9
    def params(self, st):
        from models import subslice
        return content(self.I, st, subslice(st, self.sl, C(9), self.len - 9))
