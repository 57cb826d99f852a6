"""Values: encoding and decoding of integers and arrays (P22), ownership of the elements while decoding arrays (P21)."""
import itertools, re
from spec import *
import interp, loops

INTTYPES = ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128')
ARRAY = re.compile(r'^\[(\w+); (\w+)\]$')
ESIZE = 'ENCODED_SIZE'

def data_root(S, ty, name):
    for r in S.roots:
        if r['name'] == name and r['self_ty'] == ty and r['trait'].split('<')[-1].rstrip('>').endswith('Data'): return r
    raise Missing(f'{name}() of {ty}')
def data_const(S, ty):
    for r in S.P.d['aconsts']:
        if r['name'] == ESIZE and r['self_ty'] == ty and r['trait'].endswith('Data>'): return r
    raise Missing(f'{ESIZE} of {ty}')
def array_ty(S):
    for r in S.roots:
        if r['name'] == 'decode' and ARRAY.match(r['self_ty']) and 'Data' in r['trait']: return r['self_ty']
    raise Missing('Data for arrays')

def p22(S): return list(INTTYPES) + ['array']
def p22_one(S, t, prop):
    rep = Rep()
    if t != 'array': int_one(S, rep, t)
    elif not loops.REFUTE: array_one(S, rep)
    else:
        for n in LENGTHS: array_one(S, rep, n)
    return rep
LENGTHS = (0, 1, 2, 3, 258)      # of the arrays in the bounded mode
def fix_len(N, n):
    """Bounded mode: the length of the array is n."""
    def prep(I, st, args):
        if n is None: return
        f = st.F.assume(eq(N - n))
        if len(f) != 1: raise Unsup('fixed length')
        st.F = f[0]
    return prep

def no_panic(rep, R, nm):
    for p in R.I.panics:
        rep.must(p.st.F.infeasible(), f'{nm}: does not panic', p.msg, p.st)
    rep.must(True, f'{nm}: panics examined', len(R.I.panics))

def sub_errs(I, v, chain, want):
    """v is Err of the chain of variants with a leaf with the given fields."""
    r = Res(I, v)
    return r.ok is False and [c for c in r.chain if c != chain] == [] and isinstance(r.leaf, Agg) and want(r.leaf)

def too_small(I, st, v, need, got):
    r = Res(I, v)
    l = r.leaf
    if r.ok is not False or not isinstance(l, Agg) or vname(I, l)[0] != 'BufferTooSmallError': return False
    return st.F.prove_eq(field(I, l, 'required_size'), need) and st.F.prove_eq(field(I, l, 'total_size'), got)

def bad_count(I, st, v, need, got):
    r = Res(I, v)
    if not r.err('InvalidParameterCount'): return False
    l = r.leaf
    if not isinstance(l, Agg): return False
    e = field(I, l, 'expected')
    return st.F.prove_eq(field(I, l, 'actual'), got) and isinstance(e, Agg) and vname(I, e)[1] == 'Exact' and st.F.prove_eq(e.fields[0], need)

def int_one(S, rep, ty):
    lo, hi, bits = INTS[ty]; n = bits // 8
    R = S.run(data_const(S, ty)); rep.saw(R)
    for st, k, v in R.outs:
        if st.F.infeasible(): continue
        rep.must(k == 'ret' and isinstance(v, Poly) and st.F.prove_eq(v, C(n)), f'{ty}: encoded size is the size of the type', str(v), st)
    no_panic(rep, R, f'{ty}: encoded size')
    # ------------------------------------------------------------ decode
    R = S.run(data_root(S, ty, 'decode')); rep.saw(R); I = R.I
    no_panic(rep, R, f'{ty}::decode')
    for st, k, v in R.outs:
        if k != 'ret' or st.F.infeasible(): continue
        F = st.F
        sl = R.args[0]
        r = Res(I, v)
        if r.ok:
            rep.must(F.prove_eq(sl.len, C(n)), f'{ty}::decode: accepts only its exact size', F.show()[:200], st)
            if not F.prove_eq(sl.len, C(n)): continue
            def value(s):
                b = [ext_byte(I, sl, C(i)) for i in range(n)] if False else [I.seq_get(s, I.read(s, (sl.cell, sl.path)), C(i)) for i in range(n)]
                sm = ZERO
                for i, x in enumerate(b): sm = sm + x * (256 ** i)
                if lo < 0: sm = sm - I.div(s, sm, 1 << (bits - 1)) * (1 << bits)
                return s.F.prove_eq(r.val, sm)
            rep.must(lambda: every(I, st, value), f'{ty}::decode: value is the little-endian value of the bytes', str(r.val)[:300], st)
        else:
            rep.must(lambda: bad_count(I, st, v, C(n), sl.len), f'{ty}::decode: only fails with the parameter count error', str(v)[:300], st)
            rep.must(F.decide(eq(sl.len - n)) is False, f'{ty}::decode: accepts every input of its exact size', F.show()[:200], st)
    rep.some(R, any(k == 'ret' and Res(I, v).ok for st, k, v in R.outs), f'{ty}::decode: succeeds')
    # ------------------------------------------------------------ encode
    R = S.run(data_root(S, ty, 'encode')); rep.saw(R); I = R.I
    no_panic(rep, R, f'{ty}::encode')
    p, sl = R.args
    val = I.read(R.entry, (p.cell, p.path))
    for st, k, v in R.outs:
        if k != 'ret' or st.F.infeasible(): continue
        F = st.F
        q = I.read(st, (sl.cell, sl.path))
        r = Res(I, v)
        if r.ok:
            big = F.prove_ge(sl.len - n)
            rep.must(big, f'{ty}::encode: a buffer that is too short is refused', F.show()[:200], st)
            if not big: continue
            def bytes_ok(s):
                if all(s.F.prove_eq(I.seq_get(s, q, C(i)), b) for i, b in enumerate(to_bytes(I, s, val, n))): return True
                sm = ZERO
                for i in range(n):
                    x = I.seq_get(s, q, C(i))
                    if not (s.F.prove_ge(x) and s.F.prove_ge(C(255) - x)): return False
                    sm = sm + x * (256 ** i)
                if lo == 0: return s.F.prove_eq(sm, val)
                if s.F.prove_ge(val): return s.F.prove_eq(sm, val)
                if s.F.prove_ge(-val - 1): return s.F.prove_eq(sm, val + (1 << bits))
                raise Split([ge(val), ge(-val - 1)])
            rep.must(lambda: every(I, st, bytes_ok), f'{ty}::encode: the buffer starts with the little-endian bytes of the value', '', st)
            rep.must(lambda: every(I, st, lambda s: same_seq(I, s, I.seq_extract(s, q, C(n), sl.len - n), I.seq_extract(s, I.read(R.entry, (sl.cell, sl.path)), C(n), sl.len - n))),
                     f'{ty}::encode: leaves the rest of the buffer alone', '', st)
        else:
            rep.must(lambda: too_small(I, st, v, C(n), sl.len), f'{ty}::encode: only fails with the buffer error', str(v)[:300], st)
            rep.must(F.prove_ge(C(n - 1) - sl.len), f'{ty}::encode: every buffer that is large enough is accepted', F.show()[:200], st)
    rep.some(R, any(k == 'ret' and Res(I, v).ok for st, k, v in R.outs), f'{ty}::encode: succeeds')

def elem_consts(S, ty):
    """The analyser's symbols for the encoded size of the element type and the length of the array type."""
    T, N = ARRAY.match(ty).groups()
    R = S.run(data_const(S, ty))
    found = {}
    def walk(x):
        if isinstance(x, Poly):
            for a in map(ATOMS.__getitem__, x.atoms()):
                if a.kind == 'sym' and isinstance(a.args[0], tuple) and a.args[0][0] == 'const': found[str(a.args[0])] = A(a)
    for st, k, v in R.outs:
        if k == 'ret': walk(v)
    e = [x for n, x in found.items() if ESIZE in n]; c = [x for n, x in found.items() if ESIZE not in n]
    return R, (e[0] if len(e) == 1 else None), (c[0] if len(c) == 1 else None)

def array_one(S, rep, n=None):
    ty = array_ty(S)
    R, E, N = elem_consts(S, ty)
    rep.saw(R)
    rep.must(E is not None and N is not None, 'array: encoded size depends on the element size and the length', '')
    if E is None or N is None: return
    for st, k, v in R.outs:
        if st.F.infeasible(): continue
        if k == 'ret': rep.must(st.F.prove_eq(v, E * N), 'array: encoded size is the product of length and element size', str(v), st)
        else:
            # the constant is rejected at compile time: only when it does not fit
            rep.must(st.F.prove_ge(E * N - 65536) or st.F.prove_ge(N - 65536), 'array: every size that fits is accepted', st.F.show()[:200], st)
    # ------------------------------------------------------------ decode
    R = S.run(data_root(S, ty, 'decode'), prepare=fix_len(N, n)); rep.saw(R); I = R.I
    no_panic(rep, R, 'array::decode')
    sl = R.args[0]
    fails = []
    for st, k, v in R.outs:
        if k != 'ret' or st.F.infeasible(): continue
        r = Res(I, v)
        if r.ok:
            rep.must(st.F.prove_eq(sl.len, E * N), 'array::decode: accepts only its exact size', st.F.show()[:200], st)
            rep.must(lambda: every(I, st, lambda s: elements_ok(I, s, r.val, sl, E, N)), 'array::decode: element i is decoded from the i-th part of the data', str(r.val)[:300], st)
        elif r.err('InvalidParameterCount') and isinstance(r.leaf, Agg):
            rep.must(lambda: bad_count(I, st, v, E * N, sl.len), 'array::decode: parameter count error carries actual and expected size', str(v)[:300], st)
            rep.must(st.F.decide(eq(sl.len - E * N)) is False, 'array::decode: accepts every input of its exact size', st.F.show()[:200], st)
        else:
            x = v.fields[0]
            key = x.key if isinstance(x, Opq) else None
            rep.must(lambda: key is not None and key[0] == 'decode_err' and elem_failed(I, st, key, sl, E, N), 'array::decode: otherwise only fails with the error of an element', str(v)[:300], st)
    rep.some(R, any(k == 'ret' and Res(I, v).ok for st, k, v in R.outs), 'array::decode: succeeds')
    # ------------------------------------------------------------ encode
    R = S.run(data_root(S, ty, 'encode'), prepare=fix_len(N, n)); rep.saw(R); I = R.I
    no_panic(rep, R, 'array::encode')
    p, sl = R.args
    for st, k, v in R.outs:
        if k != 'ret' or st.F.infeasible(): continue
        r = Res(I, v)
        if r.ok:
            big = st.F.prove_ge(sl.len - E * N)
            rep.must(big, 'array::encode: a buffer that is too short is refused', st.F.show()[:200], st)
            if not big: continue
            q = I.read(st, (sl.cell, sl.path))
            def enc_ok(s):
                vals = I.read(s, (p.cell, p.path))
                enc = lambda x: ('c', ('fn', ('encode', vkey(I, s, x), E)), ZERO, E)
                if n is not None:
                    return same_seq(I, s, I.seq_extract(s, q, ZERO, s.F.norm(E * n)), tuple(enc(I.seq_get(s, vals, C(i))) for i in range(n)))
                kv = fresh('kx', 0, MAXLEN).single()
                s2 = s.copy()
                f = s2.F.assume(lt(A(kv), N))
                if not f: return True
                s2.F = f[0]
                x = I.seq_get(s2, vals, A(kv))
                want = ('l', kv, N, (('c', ('fn', ('encode', vkey(I, s2, x), E)), ZERO, E),))
                return same_seq(I, s, I.seq_extract(s, q, ZERO, E * N), (want,))
            rep.must(lambda: every(I, st, enc_ok), 'array::encode: the buffer starts with the encoded elements in order', '', st)
            rep.must(lambda: every(I, st, lambda s: same_seq(I, s, I.seq_extract(s, q, E * N, sl.len - E * N), I.seq_extract(s, I.read(R.entry, (sl.cell, sl.path)), E * N, sl.len - E * N))),
                     'array::encode: leaves the rest of the buffer alone', '', st)
        elif isinstance(r.leaf, Agg):
            rep.must(lambda: too_small(I, st, v, E * N, sl.len), 'array::encode: buffer error carries required and actual size', str(v)[:300], st)
            rep.must(st.F.prove_ge(E * N - 1 - sl.len), 'array::encode: every buffer that is large enough is accepted', st.F.show()[:200], st)
        else:
            x = v.fields[0]
            rep.must(isinstance(x, Opq) and x.key[0] == 'encode_err' and st.F.prove_ge(sl.len - E * N), 'array::encode: otherwise only fails with the error of an element', str(v)[:300], st)
    rep.some(R, any(k == 'ret' and Res(I, v).ok for st, k, v in R.outs), 'array::encode: succeeds')

def part(I, st, sl, E, j):
    q = I.read(st, (sl.cell, sl.path))
    return I.seq_extract(st, q, st.F.norm(sl.off + E * j), E)

def elem_is(I, st, x, sl, E, j):
    """x is the value decoded from the j-th part of the data."""
    if isinstance(x, Agg) and len(x.fields) == 1: return elem_is(I, st, x.fields[0], sl, E, j)      # wrappers
    if not isinstance(x, Opq) or x.key[0] != 'decode': return False
    return same_seq(I, st, tuple(norm_seg(st, s) for s in x.key[1]), part(I, st, sl, E, j))

def elements_ok(I, st, v, sl, E, N):
    while isinstance(v, Agg) and len(v.fields) == 1: v = v.fields[0]
    if not isinstance(v, Seq): raise Unsup('representation of the array')
    if not st.F.prove_eq(v.len, N): return False
    j = fresh('k', 0, MAXLEN)
    for f in st.F.assume(lt(j, N)):
        s = st.copy(); s.F = f
        if not every(I, s, lambda t: elem_is(I, t, I.seq_get(t, v, j), sl, E, j)): return False
    return True

def elem_failed(I, st, key, sl, E, N):
    """The key is that of some element j < N."""
    segs = key[1]
    if len(segs) != 1 or segs[0][0] != 'c' or not st.F.prove_eq(segs[0][3], E): raise Unsup('part of the data')
    off = st.F.norm(segs[0][2] - sl.off)
    q = I.read(st, (sl.cell, sl.path))
    return segs[0][1] == q.base and st.F.prove_ge(off) and st.F.prove_ge(E * N - off - E)

# ------------------------------------------------------------------ P21
def p21(S): return ['array']
def flow(I, st):
    """Sequence of the decoded and dropped elements of a path: ('decode'|'drop', index variable, count, event) / (.., None, None, event)."""
    info = {l['lid']: l for l in I.loopinfo}
    out = []
    def go(ev, kv, cnt):
        for e in ev:
            if e[0] == 'star':
                l = info.get(e[1])
                alts = interp.LOOPS.get(e[1], ())
                if not any(x[0] in ('decode', 'drop', 'star') for a in alts for x in a): continue
                if l is None or kv is not None or len(alts) != 1: raise Unsup('shape of a loop')
                go(alts[0], l['k'].single(), st.F.norm(l['k']))
            elif e[0] in ('decode', 'drop'): out.append((e[0], kv, cnt, e))
    go(st.ev, None, None)
    return out

def p21_one(S, t, prop):
    rep = Rep()
    for n in LENGTHS if loops.REFUTE else (None,): p21_len(S, rep, n)
    return rep
def p21_len(S, rep, n):
    ty = array_ty(S)
    _, E, N = elem_consts(S, ty)
    if E is None or N is None: raise Missing('size of the elements and length of the array')
    def prep(I, st, args):
        I.track_drops = True; I.unwinding = True
        fix_len(N, n)(I, st, args)
    R = S.run(data_root(S, ty, 'decode'), prepare=prep); rep.saw(R); I = R.I
    nm = 'array::decode'
    sl = R.args[0] if R.args else None
    for p in R.I.panics:
        rep.must(p.st.F.infeasible(), f'{nm}: assertions and preconditions of the unchecked operations hold', p.msg, p.st)
    kinds = set()
    for st, k, v in R.outs:
        if k not in ('ret', 'unwind') or st.F.infeasible(): continue
        r = Res(I, v) if k == 'ret' else None
        if r is not None and r.ok:
            kinds.add('ok')
            rep.must(lambda: not any(x[0] == 'drop' for x in flow(I, st)), f'{nm}: returned elements are not dropped', str(st.ev)[:300], st)
            rep.must(lambda: every(I, st, lambda s: elements_ok(I, s, r.val, sl, E, N)), f'{nm}: the returned array is completely initialised with the decoded elements', str(r.val)[:300], st)
            rep.must(lambda: owned_once(I, st, flow(I, st), sl, E, N, True), f'{nm}: every element is decoded once', str(st.ev)[:300], st)
        else:
            kinds.add('unwind' if k == 'unwind' else 'err')
            what = 'when decoding an element unwinds' if k == 'unwind' else 'when decoding fails'
            why = []
            rep.must(lambda: owned_once(I, st, flow(I, st), sl, E, N, False, why), f'{nm}: {what}, exactly the elements decoded so far are dropped, once each', '; '.join(why) or str(st.ev)[:300], st)
    for x in ('ok', 'err', 'unwind'): rep.some(R, x in kinds or n == 0, f'{nm}: outcome {x} is analysed')

def owned_once(I, st, fl, sl, E, N, all_kept, why=None):
    F = st.F
    def fail(m):
        if why is not None: why.append(m)
        return False
    dec = [x for x in fl if x[0] == 'decode']; drops = [x for x in fl if x[0] == 'drop']
    # decoded successfully: the loop, plus single decodes except the last one if that is the failing one
    n = ZERO
    for i, (_, kv, cnt, e) in enumerate(dec):
        if kv is None:
            if not all_kept and i == len(dec) - 1 and failed(I, st, e): continue
            j, c = n, ONE
        else: j, c = n + A(kv), cnt
        segs = e[2]
        def same(s): return same_seq(I, s, tuple(norm_seg(s, x) for x in segs), part(I, s, sl, E, s.F.norm(j)))
        s = st.copy()
        if kv is not None:
            # any iteration: a fresh index
            kk = fresh('k', 0, MAXLEN)
            fs = F.assume(lt(kk, cnt))
            if not fs: n = n + c; continue
            s.F = fs[0]
            segs = tuple(subst_deep(x, lambda p: subst_atom(p, kv, kk)) for x in segs)
            j = n + kk
        if not every(I, s, same): return fail('element decoded from the wrong part of the data')
        n = n + c
    n = F.norm(n)
    if all_kept: return F.prove_eq(n, N)
    if not drops:
        return True if F.prove_ge(-n) else fail(f'{n} decoded elements are not dropped')
    # dropped
    m = ZERO
    rev = None
    for _, kv, cnt, e in drops:
        if kv is None and isinstance(e[1], (Agg, Uninit)): return fail(f'a value that was not decoded is dropped: {e[1]}')
    single = lambda e: isinstance(e[1], Opq)
    if all(kv is None for _, kv, _, _ in drops) and (len(drops) > 1 or loops.REFUTE and single(drops[0][3])):
        if not F.prove_eq(n, C(len(drops))): return fail(f'{len(drops)} elements are dropped, {n} were decoded')
        if not loops.REFUTE: raise Unsup('several places drop elements')
        ranges = [range(len(drops)), range(len(drops) - 1, -1, -1)]
        if len(drops) <= 4: ranges = itertools.permutations(range(len(drops)))
        for order in ranges:
            if all(single(x[3]) and every(I, st, lambda s: elem_is(I, s, x[3][1], sl, E, C(j))) for x, j in zip(drops, order)): return True
        if len(drops) > 4: raise Unsup('several places drop elements')
        return fail('the dropped elements are not the decoded ones')
    if len(drops) != 1: raise Unsup('several places drop elements')
    _, kv, cnt, e = drops[0]
    x = e[1]
    if kv is None:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x) == 1 and x[0][0] == 'l' and len(x[0][3]) == 1 and x[0][3][0][0] == 'v' and len(x[0][3][0][1]) == 1:
            kv, cnt, x = x[0][1], F.norm(x[0][2]), x[0][3][0][1][0]
        elif isinstance(x, tuple) and x == (): return True if F.prove_ge(-n) else fail('not dropped')
        else: raise Unsup('drop of ' + str(x)[:80])
    if isinstance(x, Uninit): return fail('uninitialised memory is dropped')
    if isinstance(x, tuple) and x and x[0] == 'unknown': raise Unsup(x[1])
    if not F.prove_eq(cnt, n): return fail(f'{cnt} elements are dropped, {n} were decoded')
    j = fresh('k', 0, MAXLEN)
    for f in F.assume(lt(j, cnt)):
        s = st.copy(); s.F = f
        y = subst_deep(x, lambda p: subst_atom(p, kv, j))
        if not (every(I, s, lambda t: elem_is(I, t, y, sl, E, j)) or every(I, s, lambda t: elem_is(I, t, y, sl, E, t.F.norm(n - 1 - j)))):
            return fail('the dropped elements are not the decoded ones')
    return True

def failed(I, st, e):
    """The (last) decoding of an element did not produce a value."""
    want = tuple(norm_seg(st, s) for s in e[2])
    for key, v in st.F.bvs.items():
        if key[0] not in ('decode_ok', 'decode_panics') or key[1] != e[1]: continue
        if v is (key[0] == 'decode_ok'): continue
        if every(I, st, lambda s: same_seq(I, s, tuple(norm_seg(s, x) for x in key[2]), want)): return True
    return False

TASKS = {'P21': (p21, p21_one), 'P22': (p22, p22_one)}
