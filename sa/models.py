"""Models of the standard library, of opaque trait implementations and of the serial port."""
import re
from values import *
from num import *
import interp as _i

def ret(st, v): return [(st, 'ret', v)]

# ------------------------------------------------------------------ constructing std enums
def ename(I, ty): return I.P.canon(ty)
def some(I, ty, v): return Agg(ename(I, ty), 1, (v,))
def none(I, ty): return Agg(ename(I, ty), 0, ())
def ok(I, ty, v): return Agg(ename(I, ty), 0, (v,))
def err(I, ty, v): return Agg(ename(I, ty), 1, (v,))
def field_ty(I, ty, variant, i=0): return I.P.types[ty]['variants'][variant]['fields'][i]['ty']

def assume1(st, c):
    """States of st with condition c assumed."""
    out = []
    for f in st.F.assume(c):
        if f.infeasible(): continue
        s = st.copy(); s.F = f; out.append(s)
    return out

def case(I, st, c):
    return I.truth(st, c)

# ------------------------------------------------------------------ content keys
def content(I, st, sl):
    q = I.read(st, (sl.cell, sl.path))
    if isinstance(q, (Opq, BufV)): q = I.step_read(st, q, ('buf',))
    if not isinstance(q, Seq): raise Unsup('content of non sequence')
    return I.seq_extract(st, q, sl.off, sl.len)

def vkey(I, st, v, depth=0):
    """Canonical, location independent key of a value."""
    if depth > 12: raise Unsup('deep value')
    if isinstance(v, Poly): return st.F.norm(v)
    if I.is_bool(v): return v
    if isinstance(v, Opq): return ('opq', st.F.nkey(v.key))
    if isinstance(v, BufV): return ('buf', vkey(I, st, v.seq, depth + 1))
    if isinstance(v, Slice):
        q = I.read(st, (v.cell, v.path))
        if isinstance(q, (Opq, BufV)): q = I.step_read(st, q, ('buf',))
        return ('slice', seqkey(I, st, q, v.off, v.len, depth))
    if isinstance(v, Ptr): return ('ref', vkey(I, st, I.read(st, (v.cell, v.path)), depth + 1))
    if isinstance(v, Seq): return ('seq', seqkey(I, st, v, ZERO, v.len, depth))
    if isinstance(v, Agg): return ('agg', v.ty, v.variant) + tuple(vkey(I, st, f, depth + 1) for f in v.fields)
    if isinstance(v, Dur): return ('dur', st.F.norm(v.nanos))
    if isinstance(v, StrV): return ('str', v.key)
    if isinstance(v, FnV): return ('fn', v.callee)
    if isinstance(v, Uninit): return ('uninit',)
    if isinstance(v, It): return ('it', v.kind) + tuple(vkey(I, st, f, depth + 1) if not isinstance(f, (tuple, int, str)) or I.is_bool(f) else f for f in v.fields)
    raise Unsup(f'key of {type(v).__name__}')

def seqkey(I, st, q, off, n, depth):
    segs = I.seq_extract(st, q, off, n)
    out = []
    for s in segs:
        if s[0] == 'v': out.append(('v', tuple(vkey(I, st, x, depth + 1) for x in s[1])))
        else: out.append(s)
    return tuple(out)

def deref(I, st, v):
    """Strip references: value behind (nested) thin pointers."""
    while isinstance(v, Ptr): v = I.read(st, (v.cell, v.path))
    return v

def as_slice(I, st, v):
    """Slice view of a value that denotes a contiguous sequence through a reference."""
    if isinstance(v, Slice): return v
    if isinstance(v, Ptr):
        x = I.read(st, (v.cell, v.path))
        if isinstance(x, (Slice, Ptr)): return as_slice(I, st, x)
        if isinstance(x, Seq): return Slice(v.cell, v.path, ZERO, x.len)
        if isinstance(x, BufV): return Slice(v.cell, v.path + (('buf',),), ZERO, x.seq.len)
        if isinstance(x, Opq):
            t = I.P.types[x.ty]
            if t.get('k') == 'array':
                q = I.mk(x.ty, x.key); I.write(st, (v.cell, v.path), q)
                return Slice(v.cell, v.path, ZERO, q.len)
            if t.get('k') == 'adt' and t['path'].startswith('core::cell::'): raise Unsup('slice of a cell')
            q = I.step_read(st, x, ('buf',))
            return Slice(v.cell, v.path + (('buf',),), ZERO, q.len)
    raise Unsup(f'not a slice: {type(v).__name__}')

def elem_ptr(sl, st, i): return Ptr(sl.cell, sl.path + (('i', st.F.norm(sl.off + i)),))
def subslice(st, sl, off, n): return Slice(sl.cell, sl.path, st.F.norm(sl.off + off), st.F.norm(n))
def get(I, st, sl, i): return I.read(st, (sl.cell, sl.path + (('i', st.F.norm(sl.off + i)),)))
def seq_of(I, st, sl):
    q = I.read(st, (sl.cell, sl.path))
    if not isinstance(q, Seq): raise Unsup('sequence expected')
    return q

# ------------------------------------------------------------------ panics in models
def do_panic(I, st, fr, msg, cond=True):
    """Record a panic in all states of st satisfying cond; returns outcome list."""
    out = []
    for s in ([st] if cond is True else assume1(st, cond)):
        if s.F.infeasible(): continue
        I.panic(s, fr, msg, None)
        out.append((s, 'panic', None))
    return out

def guarded(I, st, fr, okc, msg, cont):
    """Panics with msg unless okc; continues with cont(state)."""
    I.stats['asserts'] += 1
    d = st.F.decide(okc)
    if d is True: return cont(st)
    outs = do_panic(I, st, fr, msg, c_not(okc))
    for s in assume1(st, okc): outs.extend(cont(s))
    return outs

# ------------------------------------------------------------------ ranges
def range_bounds(I, st, idx, n):
    """(kind, start, end) for a range value indexing a sequence of length n, or ('idx', i)."""
    if isinstance(idx, Poly): return ('idx', idx, None)
    if isinstance(idx, Agg):
        t = idx.ty
        m = re.search(r'(RangeFull|RangeFrom|RangeToInclusive|RangeTo|RangeInclusive|Range)\b', t)
        if m:
            k = m.group(1)
            f = idx.fields
            if k == 'Range': return ('r', f[0], f[1])
            if k == 'RangeFrom': return ('r', f[0], n)
            if k == 'RangeTo': return ('r', ZERO, f[0])
            if k == 'RangeFull': return ('r', ZERO, n)
            if k == 'RangeToInclusive': return ('r', ZERO, f[0] + 1)
            if k == 'RangeInclusive': return ('r', f[0], f[1] + 1)
    raise Unsup(f'index {idx}')

def m_index(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    k, s, e = range_bounds(I, st, a[1], sl.len)
    if k == 'idx':
        return guarded(I, st, fr, lt(s, sl.len), 'index out of bounds', lambda st: ret(st, elem_ptr(sl, st, s)))
    okc = c_and(le(s, e), le(e, sl.len))
    return guarded(I, st, fr, okc, 'slice index out of range', lambda st: ret(st, subslice(st, sl, s, e - s)))

def m_get(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    k, s, e = range_bounds(I, st, a[1], sl.len)
    if k == 'idx':
        if case(I, st, lt(s, sl.len)): return ret(st, some(I, ty, elem_ptr(sl, st, s)))
        return ret(st, none(I, ty))
    if case(I, st, c_and(le(s, e), le(e, sl.len))): return ret(st, some(I, ty, subslice(st, sl, s, e - s)))
    return ret(st, none(I, ty))

def m_get_unchecked(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    k, s, e = range_bounds(I, st, a[1], sl.len)
    if k == 'idx':
        I.ub_check(st, fr, lt(s, sl.len), 'get_unchecked out of bounds')
        return ret(st, elem_ptr(sl, st, s))
    I.ub_check(st, fr, c_and(le(s, e), le(e, sl.len)), 'get_unchecked out of bounds')
    return ret(st, subslice(st, sl, s, e - s))

def small_bound(F, l):
    lo, hi = F.interval(l)
    if hi is not None and hi <= 8: return hi
    return 8 if F.prove_ge(C(8) - l) else None

def slice_eq(I, st, x, y):
    """Condition: equal contents of the slices x and y."""
    F = st.F
    lx, ly = F.norm(x.len), F.norm(y.len)
    c = lx.const()
    if c is None: c = ly.const()
    if c is not None and c <= 64:
        cs = [eq(lx - ly)]
        if F.decide(cs[0]) is False: return False
        if not I.truth(st, cs[0]): return False
        for i in range(c):
            a, b = get(I, st, x, C(i)), get(I, st, y, C(i))
            cs.append(val_eq(I, st, a, b))
        return c_and(*cs)
    for l in (lx, ly):
        hi = small_bound(F, l)
        if hi is not None: raise Split([eq(l - j) for j in range(0, hi + 1)])
    ka, kb = content(I, st, x), content(I, st, y)
    if ka == kb: return True
    if not I.truth(st, eq(lx - ly)): return False
    return ('bv', ('sliceeq', ka, kb), True)

def val_eq(I, st, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly): return eq(a - b)
    if I.is_bool(a) and I.is_bool(b): return I.binop(st, None, 'Eq', a, b, None, None)
    if isinstance(a, Dur) and isinstance(b, Dur): return eq(a.nanos - b.nanos)
    if isinstance(a, (Slice,)) or isinstance(b, Slice): return slice_eq(I, st, as_slice(I, st, a), as_slice(I, st, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return val_eq(I, st, deref(I, st, a), deref(I, st, b))
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.key == b.key: return True
        ks = tuple(sorted((st.F.nkey(a.key), st.F.nkey(b.key)), key=repr))
        return ('bv', ('valeq',) + ks, True)
    if isinstance(a, Seq) and isinstance(b, Seq):
        na, nb = a.len.const(), b.len.const()
        if na is not None and na == nb and na <= 64:
            return c_and(*[val_eq(I, st, I.seq_get(st, a, C(i)), I.seq_get(st, b, C(i))) for i in range(na)])
    raise Unsup(f'equality of {type(a).__name__} and {type(b).__name__}')

def m_eq(I, st, fr, c, a, ty, span, aty, neg=False):
    x, y = a
    # strip one level of reference (arguments of eq are references)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        vx, vy = deref(I, st, x), deref(I, st, y)
        if isinstance(vx, Poly) or I.is_bool(vx) or isinstance(vx, Dur):
            r = val_eq(I, st, vx, vy); return ret(st, c_not(r) if neg else r)
    try:
        sx, sy = as_slice_val(I, st, x), as_slice_val(I, st, y)
    except Unsup:
        sx = None
    if sx is not None and sy is not None:
        r = slice_eq(I, st, sx, sy)
        return ret(st, c_not(r) if neg else r)
    if c['inst'] is None:
        vx, vy = deref(I, st, x), deref(I, st, y)
        if isinstance(vx, Agg) != isinstance(vy, Agg) and isinstance(vx, (Agg, Opq)) and isinstance(vy, (Agg, Opq)):
            o, g = (vx, vy) if isinstance(vx, Opq) else (vy, vx)
            t = I.P.types[o.ty]
            if not g.fields and t.get('k') == 'adt' and t['kind'] == 'enum' and all(not v['fields'] for v in t['variants']):
                r = I.variant_of(st, o) == g.variant
                return ret(st, r is not neg)
        if isinstance(vx, (Opq, StrV)) or isinstance(vy, (Opq, StrV)):
            h = I.hooks.get('texteq') if I.hooks is not None else None
            r = h(I, st, vx, vy) if h is not None else None
            if r is not None: return ret(st, c_not(r) if neg else r)
            ks = tuple(sorted((vkey(I, st, vx), vkey(I, st, vy)), key=repr))
            r = True if ks[0] == ks[1] else ('bv', ('valeq',) + ks, True)
            return ret(st, c_not(r) if neg else r)
    return None

def as_slice_val(I, st, v):
    """Slice view only for values that are really sequences."""
    if isinstance(v, Slice): return v
    if isinstance(v, Ptr):
        x = I.read(st, (v.cell, v.path))
        if isinstance(x, (Slice, Ptr)): return as_slice_val(I, st, x)
        if isinstance(x, Seq): return Slice(v.cell, v.path, ZERO, x.len)
        if isinstance(x, BufV): return Slice(v.cell, v.path + (('buf',),), ZERO, x.seq.len)
    return None

def m_starts_with(I, st, fr, c, a, ty, span, aty):
    h, n = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    if not I.truth(st, le(n.len, h.len)): return ret(st, False)
    return ret(st, slice_eq(I, st, subslice(st, h, ZERO, n.len), n))
def m_ends_with(I, st, fr, c, a, ty, span, aty):
    h, n = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    if not I.truth(st, le(n.len, h.len)): return ret(st, False)
    return ret(st, slice_eq(I, st, subslice(st, h, h.len - n.len, n.len), n))
def m_contains(I, st, fr, c, a, ty, span, aty):
    h = as_slice(I, st, a[0]); x = deref(I, st, a[1])
    n = h.len.const()
    if n is None or n > 32: raise Unsup('contains')
    return ret(st, c_or(*[val_eq(I, st, get(I, st, h, C(i)), x) for i in range(n)]))

def m_copy_from_slice(I, st, fr, c, a, ty, span, aty):
    d, s = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    def cont(st):
        q = seq_of(I, st, d); src = seq_of(I, st, s)
        I.write(st, (d.cell, d.path), I.seq_copy(st, q, d.off, d.len, src, s.off))
        return ret(st, UNIT)
    return guarded(I, st, fr, eq(d.len - s.len), 'copy_from_slice: length mismatch', cont)

def m_copy_within(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    _, s, e = range_bounds(I, st, a[1], d.len)
    dst = a[2]
    def cont(st):
        q = seq_of(I, st, d)
        I.write(st, (d.cell, d.path), I.seq_copy(st, q, d.off + dst, e - s, q, d.off + s))
        return ret(st, UNIT)
    return guarded(I, st, fr, c_and(le(s, e), le(e, d.len), le(dst, d.len - (e - s))), 'copy_within: out of range', cont)

def m_fill(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0]); v = a[1]
    q = seq_of(I, st, d)
    I.write(st, (d.cell, d.path), I.seq_copy(st, q, d.off, d.len, Seq(q.elty, d.len, ('rep', v), ()), ZERO))
    return ret(st, UNIT)

def m_swap(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0]); i, j = a[1], a[2]
    def cont(st):
        x, y = get(I, st, d, i), get(I, st, d, j)
        I.write(st, (d.cell, d.path + (('i', st.F.norm(d.off + i)),)), y)
        I.write(st, (d.cell, d.path + (('i', st.F.norm(d.off + j)),)), x)
        return ret(st, UNIT)
    return guarded(I, st, fr, c_and(lt(i, d.len), lt(j, d.len)), 'swap: out of range', cont)

def m_split_at(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0]); m = a[1]
    return guarded(I, st, fr, le(m, d.len), 'split_at: out of range',
                   lambda st: ret(st, tup(subslice(st, d, ZERO, m), subslice(st, d, m, d.len - m))))
def m_split_at_checked(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0]); m = a[1]
    if I.truth(st, le(m, d.len)): return ret(st, some(I, ty, tup(subslice(st, d, ZERO, m), subslice(st, d, m, d.len - m))))
    return ret(st, none(I, ty))
def m_first(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    if I.truth(st, ge(d.len - 1)): return ret(st, some(I, ty, elem_ptr(d, st, ZERO)))
    return ret(st, none(I, ty))
def m_last(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    if I.truth(st, ge(d.len - 1)): return ret(st, some(I, ty, elem_ptr(d, st, d.len - 1)))
    return ret(st, none(I, ty))
def m_split_first(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    if I.truth(st, ge(d.len - 1)): return ret(st, some(I, ty, tup(elem_ptr(d, st, ZERO), subslice(st, d, ONE, d.len - 1))))
    return ret(st, none(I, ty))
def m_split_last(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    if I.truth(st, ge(d.len - 1)): return ret(st, some(I, ty, tup(elem_ptr(d, st, d.len - 1), subslice(st, d, ZERO, d.len - 1))))
    return ret(st, none(I, ty))
def m_first_chunk(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    n = I.P.types[I.P.types[field_ty(I, ty, 1)]['ty']]['len']
    n = I.const_usize(n)
    if I.truth(st, le(n, d.len)):
        sub = subslice(st, d, ZERO, n)
        return ret(st, some(I, ty, array_ref(I, st, sub, n)))
    return ret(st, none(I, ty))
def array_ref(I, st, sl, n):
    """&[T; N] view of a slice: shared references only (a copy of the contents)."""
    if sl.off.const() == 0:
        q = seq_of(I, st, sl)
        if st.F.prove_eq(q.len, n): return Ptr(sl.cell, sl.path)
    cid = ('T', fresh_id())
    st.cells[cid] = I.sub_seq(st, seq_of(I, st, sl), sl.off, n)
    return Ptr(cid, ())

def m_slice_to_array(I, st, fr, c, a, ty, span, aty):
    """TryFrom<&[T]> for [T; N] / &[T; N] (and their TryInto)."""
    d = as_slice(I, st, a[0])
    okty = field_ty(I, ty, 0)
    t = I.P.types[okty]
    isref = t.get('k') == 'ref'
    if isref: t = I.P.types[t['ty']]
    if t.get('k') != 'array': return None
    n = I.const_usize(t['len'])
    if I.truth(st, eq(d.len - n)):
        if isref: return ret(st, ok(I, ty, array_ref(I, st, d, n)))
        q = seq_of(I, st, d)
        c_ = st.F.norm(n).const()
        if c_ is not None and c_ <= 32:
            v = Seq(q.elty, n, ('const', tuple(get(I, st, d, C(i)) for i in range(c_))), ())
        else: v = I.sub_seq(st, q, d.off, n)
        return ret(st, ok(I, ty, v))
    return ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('tryfromslice',))))

def m_len(I, st, fr, c, a, ty, span, aty):
    v = a[0]
    if isinstance(v, Ptr):
        x = deref(I, st, v)
        if isinstance(x, It): return ret(st, it_len(I, st, x))
        if isinstance(x, Agg) and 'Range' in x.ty: return ret(st, x.fields[1] - x.fields[0] if I.truth(st, le(x.fields[0], x.fields[1])) else ZERO)
    if isinstance(v, StrV): return ret(st, sym(('strlen', v.key), 0, MAXLEN))
    return ret(st, as_slice(I, st, v).len)
def m_is_empty(I, st, fr, c, a, ty, span, aty):
    r = m_len(I, st, fr, c, a, ty, span, aty)
    return ret(r[0][0], eq(r[0][2]))
def m_as_slice(I, st, fr, c, a, ty, span, aty):
    return ret(st, as_slice(I, st, a[0]))
def m_as_ptr(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    return ret(st, Ptr(d.cell, d.path + (('i', d.off),)))
def m_to_vec(I, st, fr, c, a, ty, span, aty):
    d = as_slice(I, st, a[0])
    q = I.sub_seq(st, seq_of(I, st, d), d.off, d.len)
    return ret(st, BufV(ty, ('vec', 0), q))

# ------------------------------------------------------------------ iterators
def m_iter(I, st, fr, c, a, ty, span, aty):
    return ret(st, It('slice', (as_slice(I, st, a[0]),)))
def chunk_iter(kind):
    def f(I, st, fr, c, a, ty, span, aty):
        d = as_slice(I, st, a[0])
        return guarded(I, st, fr, ge(a[1] - 1), kind + ': zero size', lambda st: ret(st, It(kind, (d, a[1]))))
    return f

def m_remainder(I, st, fr, c, a, ty, span, aty):
    x = deref(I, st, a[0])
    if not isinstance(x, It) or x.kind != 'chunks_exact': raise Unsup('remainder')
    sl, n = x.fields
    q = mk_divp(st.F.norm(sl.len), st.F.norm(n)) * n if not I.truth(st, ge(n - sl.len - 1)) else ZERO
    return ret(st, subslice(st, sl, q, sl.len - q))

def into_iter(I, st, fr, c, a, ty, span, aty):
    v = a[0]
    if isinstance(v, It): return ret(st, v)
    if isinstance(v, Slice): return ret(st, It('slice', (v,)))
    if isinstance(v, Ptr):
        x = I.read(st, (v.cell, v.path))
        if isinstance(x, (Seq, BufV)): return ret(st, It('slice', (as_slice(I, st, v),)))
        if isinstance(x, (It, Ptr)) or (isinstance(x, Agg) and is_iterator_agg(x)): return ret(st, v)
        if isinstance(x, Agg): return None
        if isinstance(x, Opq):
            t = I.P.types[x.ty]
            if t.get('k') == 'array': return ret(st, It('slice', (as_slice(I, st, v),)))
            return ret(st, opaque_iter(I, st, ('refiter', x.key)))
    if isinstance(v, Opq): return ret(st, opaque_iter(I, st, x_key(v)))
    if isinstance(v, Agg):
        if is_iterator_agg(v): return ret(st, v)
        return None
    if isinstance(v, (Seq, BufV)):
        q = v.seq if isinstance(v, BufV) else v
        cid = ('T', fresh_id()); st.cells[cid] = q
        return ret(st, It('vals', (Slice(cid, (), ZERO, q.len),)))
    return None
def x_key(v): return v.key
def is_iterator_agg(v): return 'Range' in v.ty or v.ty.startswith(('std::iter', 'core::iter', 'std::option', 'core::option'))
def opaque_iter(I, st, src):
    return It('opaque', (src, ZERO, sym((src, 'count'), 0, MAXCOUNT)))

def it_len(I, st, it):
    k = it.kind
    if k in ('slice', 'vals'): return it.fields[0].len
    if k == 'opaque': return it.fields[2] - it.fields[1]
    if k in ('enumerate', 'map', 'copied', 'rev', 'opqiter'): return it_len_any(I, st, it.fields[0])
    if k == 'zip':
        x, y = it_len_any(I, st, it.fields[0]), it_len_any(I, st, it.fields[1])
        return x if I.truth(st, le(x, y)) else y
    if k == 'chunks_exact': return mk_divp(it.fields[0].len, st.F.norm(it.fields[1]))
    raise Unsup(f'length of iterator {k}')
def it_len_any(I, st, v):
    if isinstance(v, It): return it_len(I, st, v)
    if isinstance(v, Agg) and 'Range' in v.ty: return v.fields[1] - v.fields[0] if I.truth(st, le(v.fields[0], v.fields[1])) else ZERO
    raise Unsup('iterator length')

def next_any(I, st, fr, v, itemty, span, back=False):
    """Advance an iterator value. Returns list of (st, kind, new iterator value, item or None)."""
    F = st.F
    if isinstance(v, Ptr):     # &mut iterator
        out = []
        for s, k, nv, item in next_any(I, st, fr, I.read(st, (v.cell, v.path)), itemty, span, back):
            if k == 'ret': I.write(s, (v.cell, v.path), nv)
            out.append((s, k, v, item))
        return out
    if isinstance(v, Agg):
        if 'RangeInclusive' in v.ty:
            s, e, ex = v.fields[0], v.fields[1], (v.fields[2] if len(v.fields) > 2 else False)
            if I.truth(st, ex) or I.truth(st, lt(e, s)): return [(st, 'ret', v, None)]
            last = I.truth(st, eq(e - s))
            if back: return [(st, 'ret', Agg(v.ty, 0, (s, e if last else e - 1, last)), e)]
            return [(st, 'ret', Agg(v.ty, 0, (s if last else s + 1, e, last)), s)]
        if 'RangeFrom' in v.ty:
            return [(st, 'ret', Agg(v.ty, 0, (v.fields[0] + 1,)), v.fields[0])]
        if 'Range<' in v.ty or v.ty.endswith('Range'):
            s, e = v.fields
            if I.truth(st, lt(s, e)):
                if back: return [(st, 'ret', Agg(v.ty, 0, (s, F.norm(e - 1))), F.norm(e - 1))]
                return [(st, 'ret', Agg(v.ty, 0, (F.norm(s + 1), e)), s)]
            return [(st, 'ret', v, None)]
        if 'option::' in v.ty or v.ty.startswith('Option'):
            pass
        raise Unsup(f'iterator {v.ty}')
    if not isinstance(v, It): raise Unsup(f'iterator {type(v).__name__}')
    k = v.kind; f = v.fields
    if k == 'slice' or k == 'vals':
        sl = f[0]
        if not I.truth(st, ge(sl.len - 1)): return [(st, 'ret', v, None)]
        if back: item = elem_ptr(sl, st, sl.len - 1); nsl = subslice(st, sl, ZERO, sl.len - 1)
        else: item = elem_ptr(sl, st, ZERO); nsl = subslice(st, sl, ONE, sl.len - 1)
        if k == 'vals': item = I.read(st, (item.cell, item.path))
        return [(st, 'ret', It(k, (nsl,)), item)]
    if k == 'opaque':
        src, pos, n = f
        if I.truth(st, lt(pos, n)):
            if back:
                if itemty is None: raise Unsup('item type')
                return [(st, 'ret', It(k, (src, pos, F.norm(n - 1))), I.mk(itemty, (src, 'item', F.norm(n - 1))))]
            if itemty is None: raise Unsup('item type')
            return [(st, 'ret', It(k, (src, F.norm(pos + 1), n)), I.mk(itemty, (src, 'item', F.norm(pos))))]
        return [(st, 'ret', v, None)]
    if k == 'enumerate':
        it2 = None
        if itemty is not None:
            t = I.P.types[itemty]
            if t.get('k') == 'tuple': it2 = t['tys'][1]
        if back: raise Unsup('enumerate from the back')
        out = []
        for s, kk, nv, item in next_any(I, st, fr, f[0], it2, span):
            if kk != 'ret' or item is None: out.append((s, kk, It(k, (nv, f[1])) if kk == 'ret' else None, None)); continue
            out.append((s, 'ret', It(k, (nv, s.F.norm(f[1] + 1))), tup(f[1], item)))
        return out
    if k == 'zip':
        if back: raise Unsup('zip from the back')
        t = I.P.types[itemty] if itemty is not None else {}
        ta, tb = t['tys'] if t.get('k') == 'tuple' else (None, None)
        out = []
        for s, kk, nv, item in next_any(I, st, fr, f[0], ta, span):
            if kk != 'ret' or item is None: out.append((s, kk, It(k, (nv, f[1])), None)); continue
            for s2, k2, nv2, item2 in next_any(I, s, fr, f[1], tb, span):
                out.append((s2, k2, It(k, (nv, nv2)), None if item2 is None else tup(item, item2)))
        return out
    if k == 'rev':
        return [(s, kk, It(k, (nv,)), item) for s, kk, nv, item in next_any(I, st, fr, f[0], itemty, span, not back)]
    if k == 'copied':
        return [(s, kk, It(k, (nv,)), None if item is None else I.read(s, (item.cell, item.path)) if isinstance(item, Ptr) else item)
                for s, kk, nv, item in next_any(I, st, fr, f[0], None, span, back)]
    if k == 'map':
        out = []
        for s, kk, nv, item in next_any(I, st, fr, f[0], f[2], span, back):
            if kk != 'ret' or item is None: out.append((s, kk, It(k, (nv, f[1], f[2])), None)); continue
            for s2, k2, val in I.call_value(s, fr, f[1], [item], itemty, span):
                out.append((s2, k2, It(k, (nv, f[1], f[2])), val))
        return out
    if k == 'skip':
        n = f[1]
        if I.truth(st, eq(n)): return [(s, kk, It(k, (nv, ZERO)), item) for s, kk, nv, item in next_any(I, st, fr, f[0], itemty, span)]
        return next_any(I, st, fr, It(k, (it_skip(I, st, f[0], n), ZERO)), itemty, span)
    if k == 'take':
        if not I.truth(st, ge(f[1] - 1)): return [(st, 'ret', v, None)]
        return [(s, kk, It(k, (nv, F.norm(f[1] - 1))), item) for s, kk, nv, item in next_any(I, st, fr, f[0], itemty, span)]
    if k in ('chunks', 'chunks_exact'):
        sl, n = f
        if k == 'chunks_exact':
            if not I.truth(st, le(n, sl.len)): return [(st, 'ret', v, None)]
            return [(st, 'ret', It(k, (subslice(st, sl, n, sl.len - n), n)), subslice(st, sl, ZERO, n))]
        if not I.truth(st, ge(sl.len - 1)): return [(st, 'ret', v, None)]
        m = n if I.truth(st, le(n, sl.len)) else sl.len
        return [(st, 'ret', It(k, (subslice(st, sl, m, sl.len - m), n)), subslice(st, sl, ZERO, m))]
    if k == 'windows':
        sl, n = f
        if not I.truth(st, le(n, sl.len)): return [(st, 'ret', v, None)]
        return [(st, 'ret', It(k, (subslice(st, sl, ONE, sl.len - 1), n)), subslice(st, sl, ZERO, n))]
    if k == 'filter':
        raise Unsup('filter')
    if k == 'chain':
        out = []
        if not f[2]:
            for s, kk, nv, item in next_any(I, st, fr, f[0], itemty, span):
                if kk != 'ret' or item is not None: out.append((s, kk, It(k, (nv, f[1], 0)), item)); continue
                for s2, k2, nv2, item2 in next_any(I, s, fr, f[1], itemty, span): out.append((s2, k2, It(k, (nv, nv2, 1)), item2))
            return out
        return [(s, kk, It(k, (f[0], nv, 1)), item) for s, kk, nv, item in next_any(I, st, fr, f[1], itemty, span)]
    if k == 'once':
        if f[0] is None: return [(st, 'ret', v, None)]
        return [(st, 'ret', It(k, (None,)), f[0])]
    raise Unsup(f'iterator {k}')

def native_iter_value(v):
    return isinstance(v, It) or (isinstance(v, Agg) and 'Range' in v.ty)

def m_next(I, st, fr, c, a, ty, span, aty, back=False):
    v = a[0]
    if not isinstance(v, Ptr): return None
    x = I.read(st, (v.cell, v.path))
    if isinstance(x, Ptr):
        return m_next(I, st, fr, c, [x], ty, span, aty, back)
    if isinstance(x, Opq) and I.P.types[x.ty].get('k') in ('param', 'alias', 'other', 'dyn'):
        x = opaque_iter(I, st, x.key)
    if not native_iter_value(x): return None
    out = []
    for s, k, nv, item in next_any(I, st, fr, x, field_ty(I, ty, 1), span, back):
        if k == 'ret':
            I.write(s, (v.cell, v.path), nv)
            out.append((s, 'ret', none(I, ty) if item is None else some(I, ty, item)))
        else: out.append((s, k, None))
    return out

def as_it(I, st, v):
    if isinstance(v, Opq): return opaque_iter(I, st, v.key)
    if isinstance(v, (It, Agg, Ptr)): return v
    return None

def adapter(kind, n=0):
    def f(I, st, fr, c, a, ty, span, aty):
        v = as_it(I, st, a[0])
        if v is None or (isinstance(v, Agg) and 'Range' not in v.ty): return None
        if kind == 'enumerate': return ret(st, It('enumerate', (v, ZERO)))
        if kind == 'map':
            return ret(st, It('map', (v, a[1], item_type(I, c, 0))))
        if kind in ('skip', 'take'): return ret(st, It(kind, (v, a[1])))
        return ret(st, It(kind, (v,) + tuple(a[1:])))
    return f
def item_type(I, c, i): return None

def m_zip(I, st, fr, c, a, ty, span, aty):
    x = as_it(I, st, a[0])
    if x is None: return None
    r = into_iter(I, st, fr, c, [a[1]], ty, span, aty)
    if r is None: raise Unsup('zip')
    return ret(r[0][0], It('zip', (x, r[0][2])))
def m_chain(I, st, fr, c, a, ty, span, aty):
    x = as_it(I, st, a[0])
    if x is None: return None
    r = into_iter(I, st, fr, c, [a[1]], ty, span, aty)
    if r is None: raise Unsup('chain')
    return ret(r[0][0], It('chain', (x, r[0][2], 0)))

def it_skip(I, st, x, n):
    """The iterator x without its next n items (or at its end, if there are fewer)."""
    F = st.F
    if isinstance(x, Agg) and 'Range<' in x.ty:
        s, e = x.fields
        return Agg(x.ty, 0, (F.norm(s + n), e) if I.truth(st, le(s + n, e)) else (e, e) if I.truth(st, le(s, e)) else (s, e))
    if isinstance(x, It):
        k = x.kind; f = x.fields
        if k in ('slice', 'vals'):
            sl = f[0]
            return It(k, (subslice(st, sl, n, sl.len - n) if I.truth(st, le(n, sl.len)) else subslice(st, sl, sl.len, ZERO),))
        if k == 'opaque':
            return It(k, (f[0], F.norm(f[1] + n) if I.truth(st, le(f[1] + n, f[2])) else f[2], f[2]))
        if k == 'enumerate':
            ln = it_len(I, st, f[0])
            m = n if I.truth(st, le(n, ln)) else ln
            return It(k, (it_skip(I, st, f[0], m), F.norm(f[1] + m)))
        if k == 'copied': return It(k, (it_skip(I, st, f[0], n),))
        if k == 'zip': return It(k, (it_skip(I, st, f[0], n), it_skip(I, st, f[1], n)))
        if k == 'skip': return It(k, (f[0], F.norm(f[1] + n)))
        if k == 'take': return It(k, (it_skip(I, st, f[0], n if I.truth(st, le(n, f[1])) else f[1]), F.norm(f[1] - n) if I.truth(st, le(n, f[1])) else ZERO))
        if k in ('chunks_exact', 'chunks'):
            sl, c = f; m = F.norm(n * c)
            return It(k, (subslice(st, sl, m, sl.len - m) if I.truth(st, le(m, sl.len)) else subslice(st, sl, sl.len, ZERO), c))
        if k == 'windows':
            sl, c = f
            return It(k, (subslice(st, sl, n, sl.len - n) if I.truth(st, le(n, sl.len)) else subslice(st, sl, sl.len, ZERO), c))
        if k == 'rev':
            i = f[0]
            if isinstance(i, It) and i.kind in ('slice', 'vals'):
                sl = i.fields[0]
                return It(k, (It(i.kind, (subslice(st, sl, ZERO, sl.len - n) if I.truth(st, le(n, sl.len)) else subslice(st, sl, ZERO, ZERO),)),))
            if isinstance(i, Agg) and 'Range<' in i.ty:
                s, e = i.fields
                return It(k, (Agg(i.ty, 0, (s, F.norm(e - n)) if I.truth(st, le(s + n, e)) else (s, s) if I.truth(st, le(s, e)) else (s, e)),))
    raise Unsup('skip')
def m_nth(I, st, fr, c, a, ty, span, aty):
    v = a[0]
    x = I.read(st, (v.cell, v.path))
    if isinstance(x, Ptr): return m_nth(I, st, fr, c, [x] + list(a[1:]), ty, span, aty)
    if isinstance(x, Opq) and I.P.types[x.ty].get('k') in ('param', 'alias', 'other', 'dyn'): x = opaque_iter(I, st, x.key)
    if not native_iter_value(x): raise Unsup('nth')
    I.write(st, (v.cell, v.path), it_skip(I, st, x, a[1]))
    return m_next(I, st, fr, c, a[:1], ty, span, aty)
def m_exact_len(I, st, fr, c, a, ty, span, aty):
    x = deref(I, st, a[0])
    if isinstance(x, Opq): return ret(st, sym((x.key, 'count'), 0, MAXCOUNT))
    if isinstance(x, It): return ret(st, it_len(I, st, x))
    return m_len(I, st, fr, c, a, ty, span, aty)

# ------------------------------------------------------------------ integers
def from_bytes(I, st, bs, info):
    """Little endian bytes -> integer."""
    p = ZERO
    for i, b in enumerate(bs): p = p + b * (1 << (8 * i))
    lo, hi, bits = info
    if lo < 0: return st_signed(I, st, p, bits)
    return p
def st_signed(I, st, p, bits):
    h = 1 << (bits - 1)
    # p - 2^bits * [p >= 2^(bits-1)]
    return p - I.div(st, p, h) * (1 << bits)
def to_bytes(I, st, v, n):
    """Integer -> n little endian bytes."""
    p = st.F.norm(v)
    if not (st.F.prove_ge(p)): p = p - I.div(st, p, 1 << (8 * n)) * (1 << (8 * n))
    out = []
    q = p
    for i in range(n):
        q2 = I.div(st, p, 1 << (8 * (i + 1)))
        out.append(st.F.norm(q - q2 * 256)); q = q2
    return out

INTRE = re.compile(r'^core::num::<impl (\w+)>::(\w+)$')
def m_int(I, st, fr, c, a, ty, span, aty, tname, m):
    info = INTS.get(tname)
    if info is None: return None
    lo, hi, bits = info
    F = st.F
    x = a[0]
    def inr(p): return I.in_range(st, p, info)
    def arith(op, p):
        if op == 'saturating':
            if I.truth(st, ge(C(hi) - p)) is False: return ret(st, C(hi))
            if I.truth(st, ge(p - lo)) is False: return ret(st, C(lo))
            return ret(st, F.norm(p))
        if op == 'checked':
            if I.truth(st, inr(p)): return ret(st, some(I, ty, F.norm(p)))
            return ret(st, none(I, ty))
        if op == 'wrapping': return ret(st, I.wrap(st, p, info))
        if op == 'overflowing':
            if I.truth(st, inr(p)): return ret(st, tup(F.norm(p), False))
            return ret(st, tup(I.wrap(st, p, info), True))
        if op in ('unchecked', 'strict'):
            return guarded(I, st, fr, inr(p), 'arithmetic overflow', lambda st: ret(st, st.F.norm(p)))
        return None
    mm = re.match(r'^(saturating|checked|wrapping|overflowing|unchecked|strict)_(add|sub|mul|neg|div|rem|shl|shr|add_signed|next_multiple_of)$', m)
    if mm:
        op, f = mm.groups()
        if f == 'add': return arith(op, x + a[1])
        if f == 'sub': return arith(op, x - a[1])
        if f == 'mul': return arith(op, x * a[1])
        if f == 'neg': return arith(op, -x)
        if f == 'add_signed': return arith(op, x + a[1])
        if f in ('div', 'rem') and op in ('checked', 'wrapping', 'saturating'):
            if op == 'checked' and I.truth(st, eq(a[1])): return ret(st, none(I, ty))
            r = I.binop(st, fr, 'Div' if f == 'div' else 'Rem', x, a[1], aty[0] if aty else None, None)
            return ret(st, some(I, ty, r) if op == 'checked' else r)
        if f in ('shl', 'shr') and op == 'wrapping':
            return ret(st, I.binop(st, fr, 'Shl' if f == 'shl' else 'Shr', x, a[1], ty, None))
        return None
    if m == 'div_ceil':
        d = F.norm(a[1])
        if lo != 0: return None
        dc = d.const()
        def cont(st):
            n = st.F.norm(x)
            if dc is not None: return ret(st, I.div(st, n + (dc - 1), dc))
            return ret(st, mk_divp(st.F.norm(n + d - 1), d))
        return guarded(I, st, fr, ge(d - 1), 'division by zero', cont)
    if m == 'to_le_bytes' or m == 'to_ne_bytes':
        bs = to_bytes(I, st, x, bits // 8)
        return ret(st, Seq('u8', C(len(bs)), ('const', tuple(bs)), ()))
    if m == 'to_be_bytes':
        bs = to_bytes(I, st, x, bits // 8)[::-1]
        return ret(st, Seq('u8', C(len(bs)), ('const', tuple(bs)), ()))
    if m in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes'):
        bs = [I.seq_get(st, x, C(i)) for i in range(bits // 8)]
        if m == 'from_be_bytes': bs = bs[::-1]
        return ret(st, from_bytes(I, st, bs, info))
    if m in ('swap_bytes', 'to_be', 'from_be'):
        return ret(st, from_bytes(I, st, to_bytes(I, st, x, bits // 8)[::-1], info))
    if m in ('to_le', 'from_le'): return ret(st, x)
    if m == 'abs_diff':
        return ret(st, x - a[1] if I.truth(st, le(a[1], x)) else a[1] - x)
    if m == 'rotate_left' or m == 'rotate_right':
        n = F.norm(a[1]).const()
        if n is None: return None
        n %= bits
        if m == 'rotate_right': n = (bits - n) % bits
        hi_ = I.div(st, x, 1 << (bits - n))
        return ret(st, I.wrap(st, x * (1 << n), info) + hi_)
    if m == 'is_multiple_of':
        return ret(st, eq(I.binop(st, fr, 'Rem', x, a[1], aty[0], None)))
    if m == 'next_multiple_of':
        d = F.norm(a[1]).const()
        if d: return ret(st, I.div(st, x + (d - 1), d) * d)
        return None
    if m in ('min_value', 'max_value'): return ret(st, C(lo if m == 'min_value' else hi))
    if m in ('cast_signed', 'cast_unsigned'):
        return ret(st, I.wrap(st, x, INTS[I.P.canon(ty)]))
    if m == 'pow':
        n = F.norm(a[1]).const()
        if n is None or n > 16: return None
        p = ONE
        for _ in range(n): p = p * x
        return guarded(I, st, fr, inr(p), 'arithmetic overflow', lambda st: ret(st, p))
    return None

def m_min(I, st, fr, c, a, ty, span, aty, mx=False):
    x, y = a
    if isinstance(x, Poly) and isinstance(y, Poly):
        if I.truth(st, le(x, y)): return ret(st, y if mx else x)
        return ret(st, x if mx else y)
    if isinstance(x, Dur) and isinstance(y, Dur):
        if I.truth(st, le(x.nanos, y.nanos)): return ret(st, y if mx else x)
        return ret(st, x if mx else y)
    return None
def m_clamp(I, st, fr, c, a, ty, span, aty):
    x, l, h = a
    if not isinstance(x, Poly): return None
    def cont(st):
        if I.truth(st, lt(x, l)): return ret(st, l)
        if I.truth(st, lt(h, x)): return ret(st, h)
        return ret(st, x)
    return guarded(I, st, fr, le(l, h), 'clamp: min > max', cont)

def cmp_m(op):
    def f(I, st, fr, c, a, ty, span, aty):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        if isinstance(x, Dur) and isinstance(y, Dur): x, y = x.nanos, y.nanos
        if isinstance(x, Poly) and isinstance(y, Poly):
            return ret(st, {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[op])
        return None
    return f
def m_cmp(I, st, fr, c, a, ty, span, aty):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if isinstance(x, Dur) and isinstance(y, Dur): x, y = x.nanos, y.nanos
    if not (isinstance(x, Poly) and isinstance(y, Poly)): return None
    r = 1 if I.truth(st, eq(x - y)) else (0 if I.truth(st, lt(x, y)) else 2)
    nm = ename(I, ty)
    if 'Option' in nm: return ret(st, some(I, ty, Agg(ename(I, field_ty(I, ty, 1)), r, ())))
    return ret(st, Agg(nm, r, ()))

def m_try_from_int(I, st, fr, c, a, ty, span, aty):
    """TryFrom between integers."""
    t = I.P.types[ty]
    if t.get('k') != 'adt' or not t['path'].endswith('result::Result'): return None
    okt = field_ty(I, ty, 0)
    info = I.int_of(okt)
    if info is None or not isinstance(a[0], Poly): return m_slice_to_array(I, st, fr, c, a, ty, span, aty) if isinstance(a[0], (Slice, Ptr)) else None
    if I.truth(st, I.in_range(st, a[0], info)): return ret(st, ok(I, ty, a[0]))
    return ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('tryfromint',))))

def m_from(I, st, fr, c, a, ty, span, aty):
    x = a[0]
    if isinstance(x, Poly) and I.int_of(ty): return ret(st, x)
    if I.is_bool(x) and I.int_of(ty): return ret(st, I.as_int(st, x))
    return None

# ------------------------------------------------------------------ Duration
NS = 10**9
DMAX = 2**64 * NS - 1
def dur_ok(st, p): return c_and(ge(p), ge(C(DMAX) - p))
def m_duration(I, st, fr, c, a, ty, span, aty, m):
    F = st.F
    if m == 'new':
        p = a[0] * NS + a[1]
        return guarded(I, st, fr, dur_ok(st, p), 'overflow in Duration::new', lambda st: ret(st, Dur(p)))
    if m in ('from_secs', 'from_millis', 'from_micros', 'from_nanos', 'from_mins', 'from_hours'):
        k = {'from_secs': NS, 'from_millis': 10**6, 'from_micros': 1000, 'from_nanos': 1, 'from_mins': 60 * NS, 'from_hours': 3600 * NS}[m]
        return ret(st, Dur(a[0] * k))
    v = deref(I, st, a[0])
    if isinstance(v, Dur):
        n = F.norm(v.nanos)
        if m in ('as_nanos',): return ret(st, n)
        if m in ('as_secs', 'as_millis', 'as_micros'):
            k = {'as_secs': NS, 'as_millis': 10**6, 'as_micros': 1000}[m]
            return ret(st, I.div(st, n, k))
        if m in ('subsec_nanos', 'subsec_micros', 'subsec_millis'):
            r = n - I.div(st, n, NS) * NS
            return ret(st, I.div(st, r, {'subsec_nanos': 1, 'subsec_micros': 1000, 'subsec_millis': 10**6}[m]))
        if m == 'is_zero': return ret(st, eq(n))
        if m in ('checked_add', 'saturating_add', 'checked_sub', 'saturating_sub'):
            p = n + a[1].nanos if m.endswith('add') else n - a[1].nanos
            if I.truth(st, dur_ok(st, p)): return ret(st, some(I, ty, Dur(p)) if m.startswith('checked') else Dur(p))
            if m.startswith('checked'): return ret(st, none(I, ty))
            return ret(st, Dur(C(DMAX) if m.endswith('add') else ZERO))
        if m in ('checked_mul', 'saturating_mul'):
            p = n * a[1]
            if I.truth(st, dur_ok(st, p)): return ret(st, some(I, ty, Dur(p)) if m.startswith('checked') else Dur(p))
            return ret(st, none(I, ty) if m.startswith('checked') else Dur(C(DMAX)))
    raise Unsup('Duration::' + m)
def dur_arith(op, assign=False):
    def f(I, st, fr, c, a, ty, span, aty):
        x = deref(I, st, a[0]); y = deref(I, st, a[1]) if not isinstance(a[1], Poly) else a[1]
        if isinstance(x, Poly) and isinstance(y, Dur) and op == 'mul': x, y = y, x
        if not isinstance(x, Dur): return None
        if op in ('add', 'sub'):
            if not isinstance(y, Dur): return None
            p = x.nanos + y.nanos if op == 'add' else x.nanos - y.nanos
        elif op == 'mul':
            if not isinstance(y, Poly): return None
            p = x.nanos * y
        elif op == 'div':
            if not isinstance(y, Poly): return None
            p = I.binop(st, fr, 'Div', x.nanos, y, I.u64_ty(), None)
        def cont(st):
            r = Dur(st.F.norm(p))
            if assign:
                I.write(st, (a[0].cell, a[0].path), r); return ret(st, UNIT)
            return ret(st, r)
        return guarded(I, st, fr, dur_ok(st, p), 'overflow in Duration arithmetic', cont)
    return f

# ------------------------------------------------------------------ opaque traits
def m_as_ref(I, st, fr, c, a, ty, span, aty):
    """AsRef / AsMut / Deref / Borrow of buffers and opaque receivers."""
    t = I.P.types[ty]
    if t.get('k') not in ('ref', 'ptr'): return None
    pt = I.P.types[t['ty']]
    v = a[0]
    if pt.get('k') == 'slice':
        if isinstance(v, Slice): return ret(st, v)
        return ret(st, as_slice(I, st, v))
    if pt.get('k') == 'str':
        return ret(st, v if isinstance(v, StrV) else StrV(('asref', vkey(I, st, v))))
    x = v
    while isinstance(x, Ptr) and isinstance(I.read(st, (x.cell, x.path)), Ptr): x = I.read(st, (x.cell, x.path))
    if c['kind'] == 'unresolved' or isinstance(x, Slice):
        return ret(st, opq_of(I, st, ty, ('asref', vkey(I, st, v))))
    return None

def opq_of(I, st, ty, key):
    return I.mk(ty, key)

def clone_val(I, st, v):
    return v

def m_clone(I, st, fr, c, a, ty, span, aty):
    v = a[0]
    if isinstance(v, Ptr):
        x = I.read(st, (v.cell, v.path))
        if isinstance(x, (Poly, Dur, It, StrV, FnV, Ptr, Slice)) or I.is_bool(x): return ret(st, x)
        if isinstance(x, (Opq, Seq, BufV)):
            if isinstance(x, Opq) and c['inst'] is not None: return None
            return ret(st, x)
        if isinstance(x, Agg):
            if c['inst'] is not None and not x.ty.startswith('std::ops::Range'): return None
            return ret(st, x)
    return None

def result_fork(I, st, ty, okv, errkey):
    """Ok(okv) and Err(opaque) outcomes."""
    s2 = st.copy()
    return [(st, 'ret', ok(I, ty, okv)), (s2, 'ret', err(I, ty, I.mk(field_ty(I, ty, 1), errkey)))]

def decide_fork(I, st, key):
    """Fork on an opaque outcome (consistent for equal keys)."""
    k = st.F.nkey(key)
    return I.truth(st, ('bv', k, True))

def m_data_decode(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    key = content(I, st, sl)
    T = field_ty(I, ty, 0)
    st.ev = st.ev + (('decode', I.P.canon(T), key),)
    if decide_fork(I, st, ('decode_ok', I.P.canon(T), key)):
        return ret(st, ok(I, ty, I.mk(T, ('decode', key))))
    out = ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('decode_err', key))))
    if I.unwinding and not I.truth(st, ('bv', ('decode_panics', I.P.canon(T), st.F.nkey(key)), False)): return [(st, 'unwind', None)]
    return out

def write_fn(I, st, sl, key):
    q = seq_of(I, st, sl)
    src = Seq('u8', sl.len, ('fn', key), ())
    I.write(st, (sl.cell, sl.path), I.seq_copy_raw(st, q, sl.off, sl.len, src, ZERO))

def m_data_encode(I, st, fr, c, a, ty, span, aty):
    key = vkey(I, st, deref(I, st, a[0]))
    sl = as_slice(I, st, a[1])
    k = ('encode', key, st.F.norm(sl.len))
    if decide_fork(I, st, ('encode_ok', k)):
        write_fn(I, st, sl, k)
        return ret(st, ok(I, ty, UNIT))
    write_fn(I, st, sl, ('encode_failed', k))
    return ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('encode_err', k))))

def m_call_once(I, st, fr, c, a, ty, span, aty):
    f = a[0]
    args = a[1]
    if not isinstance(args, Agg): raise Unsup('call_once arguments')
    argv = list(args.fields)
    fv = f
    selfptr = None
    if isinstance(fv, Ptr):
        selfptr = fv; fv = deref(I, st, fv)
    if isinstance(fv, Agg): return I.call_closure(st, fr, fv, argv, ty, span, selfptr)
    if isinstance(fv, FnV): return I.call(st, fr, I.P.fns[fv.callee], argv, ty, span, None)
    if isinstance(fv, Opq):
        t = I.P.types[ty]
        rk = ename(I, ty)
        # an encoder provided by the caller: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>
        if len(argv) == 1 and isinstance(argv[0], Slice) and t.get('k') == 'adt' and t['path'].endswith('result::Result'):
            sl = argv[0]
            k = ('enc', st.F.nkey(fv.key), st.F.norm(sl.len))
            st.ev = st.ev + (('enc', fv.key, st.F.norm(sl.len)),)
            if decide_fork(I, st, ('enc_ok', k)):
                write_fn(I, st, sl, k)
                return ret(st, ok(I, ty, UNIT))
            write_fn(I, st, sl, ('enc_failed', k))
            return ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('enc_err', k))))
        key = ('callfn', fv.key) + tuple(vkey(I, st, x) for x in argv)
        st.ev = st.ev + (('callfn',) + key,)
        return ret(st, I.mk(ty, key))
    raise Unsup('call of ' + type(fv).__name__)

# ------------------------------------------------------------------ serial port
def port_key(I, st, v):
    x = deref(I, st, v)
    return x.key if isinstance(x, Opq) else ('port',)

def m_port(I, st, fr, c, a, ty, span, aty, m):
    st.n += 1
    if m == 'discard_input_buffer':
        if decide_port(I, st, 'discard'):
            st.ev = st.ev + (('discard', 'ok'),); return ret(st, ok(I, ty, UNIT))
        e = port_err(I, st, ty, 'discard')
        st.ev = st.ev + (('discard', 'err'),)
        return ret(st, err(I, ty, e))
    if m == 'write_all':
        sl = as_slice(I, st, a[1])
        segs = content(I, st, sl)
        x = I.hooks['write'](I, st, fr) if I.hooks and 'write' in I.hooks else None
        if decide_port(I, st, 'write'):
            st.ev = st.ev + (('write', segs, 'ok', st.F.norm(sl.len), x),); return ret(st, ok(I, ty, UNIT))
        e = port_err(I, st, ty, 'write')
        st.ev = st.ev + (('write', segs, 'err', st.F.norm(sl.len), x),)
        return ret(st, err(I, ty, e))
    if m == 'read':
        sl = as_slice(I, st, a[1])
        dk = vkey(I, st, a[2])
        if decide_port(I, st, 'read'):
            n = fresh('nread', 0, MAXLEN)
            for f in st.F.assume(le(n, sl.len)):
                st.F = f
                q = seq_of(I, st, sl)
                stream = Seq('u8', C(MAXLEN * 4), ('sym', ('stream',), None), ())
                I.write(st, (sl.cell, sl.path), I.seq_copy_raw(st, q, sl.off, n, stream, st.spos))
                st.ev = st.ev + (('read', st.F.norm(sl.len), dk, 'ok', n, st.spos),)
                st.spos = st.F.norm(st.spos + n)
                return ret(st, ok(I, ty, n))
            return []
        e = port_err(I, st, ty, 'read')
        st.ev = st.ev + (('read', st.F.norm(sl.len), dk, 'err', e.key if isinstance(e, Opq) else 'e', st.spos),)
        return ret(st, err(I, ty, e))
    if m == 'make_deadline':
        d = a[1]
        if not isinstance(d, Dur): raise Unsup('deadline')
        st.ev = st.ev + (('deadline', st.F.norm(d.nanos)),)
        return ret(st, Opq(ty, ('deadline', st.F.norm(d.nanos))))
    if m == 'is_timeout_error':
        x = deref(I, st, a[0])
        return ret(st, ('bv', ('timeout', vkey(I, st, x)), True))
    if m == 'baud_rate':
        if decide_port(I, st, 'baud'):
            v = sym(('portbaud', fresh_id()), 0, 2**32 - 1)
            st.ev = st.ev + (('baud_get', v),)
            return ret(st, ok(I, ty, v))
        st.ev = st.ev + (('baud_get', 'err'),)
        return ret(st, err(I, ty, port_err(I, st, ty, 'baud')))
    if m == 'set_baud_rate':
        if decide_port(I, st, 'setbaud'):
            st.ev = st.ev + (('baud_set', st.F.norm(a[1]), 'ok'),)
            return ret(st, ok(I, ty, UNIT))
        e = port_err(I, st, ty, 'setbaud')
        st.ev = st.ev + (('baud_set', st.F.norm(a[1]), 'err'),)
        return ret(st, err(I, ty, e))
    raise Unsup('serial port method ' + m)

def decide_port(I, st, what):
    """Fork on the outcome of the n-th port operation of this path."""
    return I.truth(st, ('bv', ('portok', what, st.n, fresh_loop_tag(st)), True))
def fresh_loop_tag(st): return st.ltag if hasattr(st, 'ltag') else 0
def port_err(I, st, ty, what):
    ety = field_ty(I, ty, 1)
    return Opq(ety, ('porterr', what, st.n, fresh_loop_tag(st)))

# ------------------------------------------------------------------ tables
def _id(I, st, fr, c, a, ty, span, aty): return ret(st, a[0])
def _unit(I, st, fr, c, a, ty, span, aty): return ret(st, UNIT)

ORIG = {
    'core::ops::index::Index::index': m_index, 'core::ops::index::IndexMut::index_mut': m_index,
    'core::iter::traits::collect::IntoIterator::into_iter': into_iter,
    'core::iter::traits::iterator::Iterator::next': m_next,
    'core::iter::traits::double_ended::DoubleEndedIterator::next_back': lambda *x: m_next(*x, back=True),
    'core::iter::traits::iterator::Iterator::enumerate': adapter('enumerate'),
    'core::iter::traits::iterator::Iterator::skip': adapter('skip'),
    'core::iter::traits::iterator::Iterator::take': adapter('take'),
    'core::iter::traits::iterator::Iterator::rev': adapter('rev'),
    'core::iter::traits::iterator::Iterator::copied': adapter('copied'),
    'core::iter::traits::iterator::Iterator::cloned': adapter('copied'),
    'core::iter::traits::iterator::Iterator::map': adapter('map'),
    'core::iter::traits::iterator::Iterator::zip': m_zip,
    'core::iter::traits::iterator::Iterator::chain': m_chain,
    'core::iter::traits::iterator::Iterator::by_ref': _id,
    'core::iter::traits::iterator::Iterator::nth': m_nth,
    'core::iter::traits::exact_size::ExactSizeIterator::len': m_exact_len,
    'core::cmp::PartialEq::eq': m_eq, 'core::cmp::PartialEq::ne': lambda *x: m_eq(*x, neg=True),
    'core::cmp::PartialOrd::lt': cmp_m('lt'), 'core::cmp::PartialOrd::le': cmp_m('le'),
    'core::cmp::PartialOrd::gt': cmp_m('gt'), 'core::cmp::PartialOrd::ge': cmp_m('ge'),
    'core::cmp::Ord::min': m_min, 'core::cmp::Ord::max': lambda *x: m_min(*x, mx=True), 'core::cmp::Ord::clamp': m_clamp,
    'core::cmp::Ord::cmp': m_cmp, 'core::cmp::PartialOrd::partial_cmp': m_cmp,
    'core::cmp::min': m_min, 'core::cmp::max': lambda *x: m_min(*x, mx=True),
    'core::clone::Clone::clone': m_clone,
    'core::convert::AsRef::as_ref': m_as_ref, 'core::convert::AsMut::as_mut': m_as_ref,
    'core::borrow::Borrow::borrow': m_as_ref, 'core::borrow::BorrowMut::borrow_mut': m_as_ref,
    'core::ops::deref::Deref::deref': m_as_ref, 'core::ops::deref::DerefMut::deref_mut': m_as_ref,
    'core::convert::TryFrom::try_from': m_try_from_int, 'core::convert::TryInto::try_into': m_try_from_int,
    'core::convert::From::from': m_from, 'core::convert::Into::into': m_from,
    'core::ops::function::FnOnce::call_once': m_call_once, 'core::ops::function::FnMut::call_mut': m_call_once,
    'core::ops::function::Fn::call': m_call_once,
    'core::ops::arith::Add::add': dur_arith('add'), 'core::ops::arith::Sub::sub': dur_arith('sub'),
    'core::ops::arith::Mul::mul': dur_arith('mul'), 'core::ops::arith::Div::div': dur_arith('div'),
    'core::ops::arith::AddAssign::add_assign': dur_arith('add', True), 'core::ops::arith::SubAssign::sub_assign': dur_arith('sub', True),
    'core::ops::arith::MulAssign::mul_assign': dur_arith('mul', True),
    'dynamixel2::bus::data::Data::decode': m_data_decode, 'dynamixel2::bus::data::Data::encode': m_data_encode,
    'alloc::borrow::ToOwned::to_owned': None,
}
ORIG.pop('alloc::borrow::ToOwned::to_owned')
SL = 'core::slice::<impl [T]>::'
PATHS = {
    SL + 'len': m_len, SL + 'is_empty': m_is_empty, SL + 'get': m_get, SL + 'get_mut': m_get,
    SL + 'get_unchecked': m_get_unchecked, SL + 'get_unchecked_mut': m_get_unchecked,
    SL + 'copy_from_slice': m_copy_from_slice, SL + 'clone_from_slice': m_copy_from_slice, SL + 'copy_within': m_copy_within,
    SL + 'fill': m_fill, SL + 'swap': m_swap, SL + 'starts_with': m_starts_with, SL + 'ends_with': m_ends_with, SL + 'contains': m_contains,
    SL + 'iter': m_iter, SL + 'iter_mut': m_iter, SL + 'split_at': m_split_at, SL + 'split_at_mut': m_split_at,
    SL + 'split_at_checked': m_split_at_checked, SL + 'split_at_mut_checked': m_split_at_checked,
    SL + 'first': m_first, SL + 'first_mut': m_first, SL + 'last': m_last, SL + 'last_mut': m_last,
    SL + 'split_first': m_split_first, SL + 'split_first_mut': m_split_first, SL + 'split_last': m_split_last, SL + 'split_last_mut': m_split_last,
    SL + 'first_chunk': m_first_chunk, SL + 'as_ptr': m_as_ptr, SL + 'as_mut_ptr': m_as_ptr,
    SL + 'chunks': chunk_iter('chunks'), SL + 'chunks_mut': chunk_iter('chunks'), SL + 'chunks_exact': chunk_iter('chunks_exact'),
    SL + 'chunks_exact_mut': chunk_iter('chunks_exact'), SL + 'windows': chunk_iter('windows'),
    "core::slice::iter::ChunksExact::<'a, T>::remainder": m_remainder, "core::slice::iter::ChunksExactMut::<'a, T>::into_remainder": m_remainder,
    'core::array::<impl [T; N]>::as_slice': m_as_slice, 'core::array::<impl [T; N]>::as_mut_slice': m_as_slice,
    'alloc::slice::<impl [T]>::to_vec': m_to_vec, 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned': m_to_vec,
    'alloc::vec::Vec::<T, A>::len': m_len, 'alloc::vec::Vec::<T, A>::is_empty': m_is_empty,
    'alloc::vec::Vec::<T, A>::as_slice': m_as_slice, 'alloc::vec::Vec::<T, A>::as_mut_slice': m_as_slice,
    'core::cell::UnsafeCell::<T>::get': lambda *a: m_cell_get(*a), 'core::cell::UnsafeCell::<T>::raw_get': lambda *a: m_cell_get(*a),
    'core::cell::UnsafeCell::<T>::get_mut': lambda *a: m_cell_get(*a),
}

def m_cell_get(I, st, fr, c, a, ty, span, aty):
    if not isinstance(a[0], Ptr): raise Unsup('UnsafeCell::get')
    return ret(st, Ptr(a[0].cell, a[0].path + (('f', 0),)))

def m_inspect(I, st, fr, c, a, ty, span, aty): return None

def p_from_elem(I, st, fr, c, a, ty, span, aty):
    return ret(st, BufV(ty, ('vec', 0), Seq('?', a[1], ('rep', a[0]), ())))
PATHS['alloc::vec::from_elem'] = p_from_elem

def bytes_of_iter(I, st, v):
    """The items that remain of an iterator over copied elements of a slice, as a sequence."""
    if not isinstance(v, It): return None
    k = v.kind; f = v.fields; F = st.F
    if k == 'vals' or k == 'copied' and isinstance(f[0], It) and f[0].kind == 'slice':
        sl = f[0] if k == 'vals' else f[0].fields[0]
        return I.sub_seq(st, seq_of(I, st, sl), sl.off, F.norm(sl.len))
    if k == 'copied' and isinstance(f[0], It) and f[0].kind in ('take', 'skip'):
        return bytes_of_iter(I, st, It(f[0].kind, (It('copied', (f[0].fields[0],)), f[0].fields[1])))
    if k in ('take', 'skip'):
        q = bytes_of_iter(I, st, f[0])
        if q is None: return None
        n = f[1] if I.truth(st, le(f[1], q.len)) else q.len
        return I.sub_seq(st, q, ZERO, F.norm(n)) if k == 'take' else I.sub_seq(st, q, F.norm(n), F.norm(q.len - n))
    return None

def vec_join(I, st, x, y):
    n = st.F.norm(x.len + y.len)
    q = Seq(y.elty, n, ('none',), ())
    return I.seq_copy_raw(st, I.seq_copy_raw(st, q, ZERO, x.len, x, ZERO), x.len, y.len, y, ZERO)

def p_vec_from_iter(I, st, fr, c, a, ty, span, aty):
    q = bytes_of_iter(I, st, a[0])
    if q is None: raise Unsup('collect')
    return ret(st, BufV(ty, ('vec', 0), q))
def p_vec_new(I, st, fr, c, a, ty, span, aty):
    if 'Vec<u8' not in I.P.canon(ty): raise Unsup('vector of other values')
    return ret(st, BufV(ty, ('vec', 0), Seq('u8', ZERO, ('none',), ())))
def p_vec_extend(I, st, fr, c, a, ty, span, aty):
    b = I.read(st, (a[0].cell, a[0].path))
    if not isinstance(b, BufV): raise Unsup('extend')
    if isinstance(a[1], Slice): q = I.sub_seq(st, seq_of(I, st, a[1]), a[1].off, a[1].len)
    else:
        q = bytes_of_iter(I, st, a[1])
        if q is None and isinstance(a[1], It) and a[1].kind == 'slice': q = bytes_of_iter(I, st, It('copied', (a[1],)))
        if q is None: raise Unsup('extend')
    I.write(st, (a[0].cell, a[0].path), BufV(b.ty, b.key, vec_join(I, st, b.seq, q)))
    return ret(st, UNIT)
PATHS['<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter'] = p_vec_from_iter
PATHS['alloc::vec::Vec::<T>::new'] = PATHS['alloc::vec::Vec::<T>::with_capacity'] = p_vec_new
PATHS['alloc::vec::Vec::<T, A>::extend_from_slice'] = p_vec_extend
PATHS["<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"] = p_vec_extend
PATHS["<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend"] = p_vec_extend
PATHS['std::thread::panicking'] = PATHS['std::thread::functions::panicking'] = lambda I, st, fr, c, a, ty, span, aty: ret(st, ('bv', ('environment', 'panicking'), True))

def p_ptr_read(I, st, fr, c, a, ty, span, aty):
    p = a[0]
    if not isinstance(p, Ptr): raise Unsup('ptr::read')
    t = I.P.types[ty]
    if t.get('k') == 'array' and p.path and p.path[-1][0] == 'i' and p.path[-1][1].const() == 0:
        v = I.read(st, (p.cell, p.path[:-1]))
        I.ev_move(st, p.cell, p.path[:-1], v)
        return ret(st, v)
    v = I.read(st, (p.cell, p.path))
    I.ev_move(st, p.cell, p.path, v)
    return ret(st, v)
PATHS['core::ptr::read'] = p_ptr_read
PATHS['core::ptr::const_ptr::<impl *const T>::read'] = p_ptr_read
PATHS['core::ptr::const_ptr::<impl *const T>::cast'] = _id
PATHS['core::ptr::mut_ptr::<impl *mut T>::cast'] = _id
def p_uninit(I, st, fr, c, a, ty, span, aty): return ret(st, UNINIT)
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::uninit'] = p_uninit
def p_mu_new(I, st, fr, c, a, ty, span, aty): return ret(st, a[0])
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::new'] = p_mu_new
def p_mu_write(I, st, fr, c, a, ty, span, aty):
    I.write(st, (a[0].cell, a[0].path), a[1]); return ret(st, a[0])
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::write'] = p_mu_write
def p_assume_init(I, st, fr, c, a, ty, span, aty):
    if isinstance(a[0], Uninit): raise Unsup('assume_init of uninitialised value')
    return ret(st, a[0])
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::assume_init'] = p_assume_init
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr'] = _id
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr'] = _id
def p_assume_init_drop(I, st, fr, c, a, ty, span, aty):
    I.ev_drop(st, a[0]); return ret(st, UNIT)
PATHS['core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_drop'] = p_assume_init_drop
PATHS['core::ptr::drop_in_place'] = p_assume_init_drop
def p_raw_slice(I, st, fr, c, a, ty, span, aty):
    p, n = a
    if isinstance(p, Slice):
        if not st.F.prove_ge(p.len - n): raise Unsup('raw slice beyond its origin')
        return ret(st, Slice(p.cell, p.path, p.off, n))
    if not isinstance(p, Ptr): raise Unsup('raw slice')
    if p.path and p.path[-1][0] == 'i':
        off = p.path[-1][1]
        q = I.read(st, (p.cell, p.path[:-1]))
        if not isinstance(q, Seq) or not st.F.prove_ge(q.len - off - n): raise Unsup('raw slice beyond its origin')
        return ret(st, Slice(p.cell, p.path[:-1], off, n))
    q = I.read(st, (p.cell, p.path))
    if not isinstance(q, Seq) or not st.F.prove_ge(q.len - n): raise Unsup('raw slice')
    return ret(st, Slice(p.cell, p.path, ZERO, n))
for _n in ('core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut', 'core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut'): PATHS[_n] = p_raw_slice
def p_md_new(I, st, fr, c, a, ty, span, aty): return ret(st, Agg(ename(I, ty), 0, (Agg('maybe_dangling', 0, (a[0],)),)) if False else Agg('ManuallyDrop', 0, (a[0],)))
PATHS['core::mem::manually_drop::ManuallyDrop::<T>::new'] = p_md_new
def p_md_deref(I, st, fr, c, a, ty, span, aty):
    v = a[0]
    return ret(st, Ptr(v.cell, v.path + (('f', 0),)))
PATHS['<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref'] = p_md_deref
PATHS['<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut'] = p_md_deref
def p_md_into(I, st, fr, c, a, ty, span, aty): return ret(st, a[0].fields[0])
PATHS['core::mem::manually_drop::ManuallyDrop::<T>::into_inner'] = p_md_into
def p_forget(I, st, fr, c, a, ty, span, aty): return ret(st, UNIT)
PATHS['core::mem::forget'] = p_forget
def p_replace(I, st, fr, c, a, ty, span, aty):
    v = I.read(st, (a[0].cell, a[0].path)); I.write(st, (a[0].cell, a[0].path), a[1]); return ret(st, v)
PATHS['core::mem::replace'] = p_replace
def p_swap(I, st, fr, c, a, ty, span, aty):
    x = I.read(st, (a[0].cell, a[0].path)); y = I.read(st, (a[1].cell, a[1].path))
    I.write(st, (a[0].cell, a[0].path), y); I.write(st, (a[1].cell, a[1].path), x); return ret(st, UNIT)
PATHS['core::mem::swap'] = p_swap
def p_drop(I, st, fr, c, a, ty, span, aty):
    return drop_value(I, st, fr, a[0], aty[0] if aty else None)
PATHS['core::mem::drop'] = p_drop
def p_size_of(I, st, fr, c, a, ty, span, aty):
    t = I.P.types[c['args'][0]]
    if t.get('k') == 'int': return ret(st, C(INTS[t['name']][2] // 8))
    return ret(st, sym(('size_of', t.get('name')), 0, MAXLEN))
PATHS['core::mem::size_of'] = p_size_of
PATHS['core::intrinsics::size_of'] = p_size_of
PATHS['core::hint::black_box'] = _id
PATHS['core::convert::identity'] = _id
def p_cast_ptr(I, st, fr, c, a, ty, span, aty): return ret(st, a[0])

TRY_RE = re.compile(r'core::convert::num::.*<impl core::convert::(Try)?From<')
PURE_PREFIX = ('core::fmt::', '<core::fmt::', 'alloc::fmt::', 'log::', '<log::', 'core::any::type_name', 'core::panic::location')

def native(I, st, fr, c, a, ty, span, aty):
    path, orig = c['path'], c['orig']
    h = I.contracts.get(path)
    if h is not None: return h(I, st, fr, c, a, ty, span, aty)
    if orig.startswith('dynamixel2::serial_port::SerialPort::') and (c['kind'] == 'unresolved' or I.abstract_port):
        return m_port(I, st, fr, c, a, ty, span, aty, orig.rsplit('::', 1)[1])
    if orig.startswith('dynamixel2::bus::data::Data::') and c['kind'] != 'unresolved': 
        h = None
    else: h = ORIG.get(orig)
    if h is not None and not (c['local'] and orig not in ('dynamixel2::bus::data::Data::decode', 'dynamixel2::bus::data::Data::encode')):
        r = h(I, st, fr, c, a, ty, span, aty)
        if r is not None: return r
    h = PATHS.get(path)
    if h is None and orig != path: h = PATHS.get(orig)
    if h is not None:
        r = h(I, st, fr, c, a, ty, span, aty)
        if r is not None: return r
    m = INTRE.match(path)
    if m:
        r = m_int(I, st, fr, c, a, ty, span, aty, m.group(1), m.group(2))
        if r is not None: return r
    if path.startswith('core::time::Duration::'):
        return m_duration(I, st, fr, c, a, ty, span, aty, path.rsplit('::', 1)[1])
    if path.startswith('<core::time::Duration as') or path.startswith('core::time::'):
        m2 = path.rsplit('::', 1)[1]
        if m2 in ('default',): return ret(st, Dur(ZERO))
    if I.log_on is not None and path.startswith(('log::', '<log::')):
        # the configured log level is taken to enable all or no statements
        if I.P.types[ty].get('k') == 'bool': return ret(st, I.log_on)
        if path.endswith('::partial_cmp'): return ret(st, some(I, ty, Agg(I.P.types[field_ty(I, ty, 1)]['name'], 0 if I.log_on else 2, ())))
    if path.startswith(PURE_PREFIX):
        return ret(st, pure(I, st, ty))
    if c['kind'] == 'ctor' and c.get('ctor'):
        tid, var = c['ctor'][0], c['ctor'][1]
        return ret(st, Agg(I.P.canon(tid), var, tuple(a)))
    return None

def pure(I, st, ty):
    t = I.P.types[ty]
    if t.get('k') == 'tuple' and not t['tys']: return UNIT
    return I.mk(ty, ('pure', fresh_id()))

def external(I, st, fr, c, a, ty, span, aty):
    path, orig = c['path'], c['orig']
    if c['kind'] == 'unresolved':
        if orig == 'core::convert::From::from' or orig == 'core::convert::Into::into':
            return ret(st, opq_of(I, st, ty, ('from', I.P.canon(ty), vkey(I, st, a[0]))))
        if orig == 'core::default::Default::default':
            return ret(st, I.mk(ty, ('default', I.P.canon(ty))))
        if orig == 'alloc::borrow::ToOwned::to_owned':
            return ret(st, opq_of(I, st, ty, ('to_owned', vkey(I, st, a[0]))))
        if orig == 'core::cmp::PartialEq::eq':
            return ret(st, val_eq(I, st, deref(I, st, a[0]), deref(I, st, a[1])))
    if I.hooks is not None:
        h = I.hooks.get('external')
        if h is not None:
            r = h(I, st, fr, c, a, ty, span, aty)
            if r is not None: return r
    t = I.P.types[ty]
    if t.get('k') == 'never' or path.startswith(('core::panicking::', 'std::panicking::', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::slice::index::slice_', 'core::str::')):
        if not st.F.infeasible():
            I.panic(st, fr, 'call to ' + path, None)
            return [(st, 'panic', None)]
        return []
    if c['kind'] == 'intrinsic':
        nm = path.rsplit('::', 1)[1]
        if nm in ('cold_path', 'assume', 'assert_inhabited'): return ret(st, UNIT)
        if nm in ('likely', 'unlikely'): return ret(st, a[0])
        if nm == 'unreachable':
            if st.F.infeasible(): return []
            raise Unsup('unreachable intrinsic')
    if path in ('core::hint::unreachable_unchecked', 'core::hint::assert_unchecked', 'core::ub_checks::check_language_ub'):
        return ret(st, UNIT)
    raise Unsup('external function ' + path)

# ------------------------------------------------------------------ drop
def drop(I, st, fr, t, b):
    place, target, ty = t[1], t[2], t[4]
    if isinstance(target, list): raise Unsup('drop terminator')
    tt = I.P.types[ty]
    if not needs_model_drop(I, ty): return [(st, 'goto', target)]
    st = st.copy()
    p = I.place(st, fr, place)
    if p[0] != 'loc': raise Unsup('drop of slice')
    outs = []
    for s, k, v in drop_at(I, st, fr, p[1], ty):
        outs.append((s, 'goto', target) if k == 'ret' else (s, k, v))
    return outs

_nd = {}
def needs_model_drop(I, ty, seen=()):
    """Does dropping a value of this type run code of the analysed crate (or is tracked)?"""
    key = (id(I.P), ty)
    r = _nd.get(key)
    if r is not None: return r
    if ty in seen: return False
    t = I.P.types[ty]
    k = t.get('k')
    r = False
    if k == 'adt':
        if t.get('manually_drop'): r = False
        elif isinstance(t.get('drop'), int): r = True
        elif t.get('drop') == 'external' or not t.get('needs_drop'): r = False
        else:
            r = any(needs_model_drop(I, f['ty'], seen + (ty,)) for v in t['variants'] for f in v['fields'])
            if not r and not t.get('local'):
                r = any(needs_model_drop(I, x, seen + (ty,)) for x in t.get('args', []) if isinstance(x, int))
    elif k == 'tuple': r = any(needs_model_drop(I, x, seen + (ty,)) for x in t['tys'])
    elif k == 'closure': r = any(needs_model_drop(I, x, seen + (ty,)) for x in t['upvars'])
    elif k == 'array': r = needs_model_drop(I, t['ty'], seen + (ty,))
    elif k in ('param', 'alias'): r = I.track_drops
    if not seen: _nd[key] = r
    return r

def drop_at(I, st, fr, loc, ty):
    if not needs_model_drop(I, ty): return ret(st, UNIT)
    t = I.P.types[ty]
    k = t.get('k')
    try: v = I.read(st, loc)
    except Unsup: 
        if k in ('param', 'alias'): return ret(st, UNIT)
        raise
    if isinstance(v, Uninit): return ret(st, UNIT)
    if k in ('param', 'alias'):
        I.ev_drop(st, Ptr(loc[0], loc[1])); return ret(st, UNIT)
    if k == 'adt':
        states = [(st, 'ret', UNIT)]
        if isinstance(t.get('drop'), int):
            body = I.P.bodies[t['drop']]
            states = I.run_body(st, body, [Ptr(loc[0], loc[1])], fr, None)
        out = []
        for s, kk, val in states:
            if kk != 'ret': out.append((s, kk, val)); continue
            if t['kind'] == 'union': out.append((s, 'ret', UNIT)); continue
            cur = I.read(s, loc)
            if isinstance(cur, It): out.append((s, 'ret', UNIT)); continue
            if isinstance(cur, Opq):
                if t['kind'] == 'enum': variant = I.variant_of(s, cur)
                else: variant = 0
            elif isinstance(cur, Agg): variant = cur.variant
            else: out.append((s, 'ret', UNIT)); continue
            fs = t['variants'][variant]['fields']
            cur_states = [s]
            for i, f in enumerate(fs):
                if not needs_model_drop(I, f['ty']): continue
                nxt = []
                for s2 in cur_states:
                    for s3, k3, v3 in drop_at(I, s2, fr, (loc[0], loc[1] + (('f', i, variant),)), f['ty']):
                        if k3 == 'ret': nxt.append(s3)
                        else: out.append((s3, k3, v3))
                cur_states = nxt
            out.extend((s2, 'ret', UNIT) for s2 in cur_states)
        return out
    if k == 'tuple' or k == 'closure':
        tys = t['tys'] if k == 'tuple' else t['upvars']
        cur = [st]
        for i, x in enumerate(tys):
            nxt = []
            for s in cur:
                for s3, k3, v3 in drop_at(I, s, fr, (loc[0], loc[1] + (('f', i),)), x):
                    if k3 == 'ret': nxt.append(s3)
            cur = nxt
        return [(s, 'ret', UNIT) for s in cur]
    if k == 'array':
        I.ev_drop(st, Ptr(loc[0], loc[1])); return ret(st, UNIT)
    return ret(st, UNIT)

def drop_value(I, st, fr, v, ty):
    if ty is None or not needs_model_drop(I, ty): return ret(st, UNIT)
    cid = ('T', fresh_id()); st.cells[cid] = v
    return drop_at(I, st, fr, (cid, ()), ty)
