"""Anchors, kernel contracts and data structure invariants of the analysed crate.

A contract replaces a call to one of the five kernel functions by its specification; the bodies of the kernels
are checked against the same specification on their own (kernels.py, and the receive loop in bus_recv.py)."""
from values import *
from num import *
from models import *
import loops

class Missing(Exception):
    """A function or type the analysis is anchored at does not exist."""

KERNELS = {   # role -> (name, module part of the path, number of arguments)
    'crc': ('calculate_checksum', 'checksum', 2),
    'stuff': ('stuff_inplace', 'bytestuff', 2),
    'unstuff': ('unstuff_inplace', 'bytestuff', 1),
    'find_header': ('find_header', 'bus', 1),
    'recv': ('read_packet_deadline', 'bus', 2),
    'transfer_time': ('message_transfer_time', 'bus', 2),
}

def anchor(P, role):
    name, mod, n = KERNELS[role]
    c = [r for r in P.roots if r['name'] == name and P.bodies[r['body']]['nargs'] == n]
    if len(c) > 1: c = [r for r in c if mod in r['path']] or c
    if not c: raise Missing(f'function {name} ({n} arguments) not found')
    return c[0]

# ------------------------------------------------------------------ types
def bus_type(P):
    for i, t in enumerate(P.types):
        if t.get('k') == 'adt' and t['path'].endswith('bus::Bus') : return i
    r = anchor(P, 'recv')
    b = P.bodies[r['body']]
    t = P.types[b['locals'][1]]
    return t['ty']
def is_bus(P, tid):
    t = P.types[tid]
    return t.get('k') == 'adt' and t['path'] == P.types[bus_type(P)]['path']

def local_adts(P):
    seen = {}
    for i, t in enumerate(P.types):
        if t.get('k') == 'adt' and t.get('local'): seen.setdefault(t['path'], i)
    return seen

# ------------------------------------------------------------------ which fields of the bus does the receive function change?
def field_effects(P, path_body, bus_path):
    """Fields of the bus struct (transitively) assigned or mutably borrowed by a function receiving &mut Bus.
    None: all of them."""
    seen = set(); eff = set()
    def isbus(tid):
        t = P.types[tid]
        return t.get('k') == 'adt' and t['path'] == bus_path
    def visit(b):
        if b['id'] in seen: return True
        seen.add(b['id'])
        busref = set()
        for i, l in enumerate(b['locals']):
            t = P.types[l]
            if t.get('k') in ('ref', 'ptr') and isbus(t['ty']): busref.add(i)
        def touch(pl):
            if pl[0] in busref and len(pl[1]) >= 2 and pl[1][0][0] == 'deref' and pl[1][1][0] == 'f':
                eff.add(pl[1][1][1])
            elif pl[0] in busref and len(pl[1]) == 1 and pl[1][0][0] == 'deref': return False
            return True
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=':
                    if not touch(s[1]) : return False
                    rv = s[2]
                    if rv[0] == 'ref' and 'Mut' in str(rv[1]):
                        if not (len(rv[2][1]) == 1 and rv[2][0] in busref): touch(rv[2])
                    elif rv[0] == 'rawptr':
                        touch(rv[1])
            t = bl['t']
            if t[0] == 'call':
                touch(t[3])
                c = t[1]
                passes = any(o[0] in ('copy', 'move') and o[1][0] in busref and not o[1][1] for o in t[2])
                if isinstance(c, list): 
                    continue
                inst = c['inst']
                if inst in P.bodies and P.bodies[inst]['local']:
                    if not visit(P.bodies[inst]): return False
                elif passes: return False
        # closures created here
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                    cb = P.types[s[2][2]].get('body')
                    if cb in P.bodies and not visit(P.bodies[cb]): return False
                    # captured unique borrows of bus fields are `ref` statements and counted above
        return True
    if not visit(path_body): return None
    return eff

# ------------------------------------------------------------------ kernel contracts
def crc_of(st, init, segs):
    """CRC atom with chaining: crc(crc(a, X), Y) = crc(a, XY)."""
    init = st.F.norm(init)
    a = init.single() if isinstance(init, Poly) else None
    if a is not None and a.kind == 'sym' and isinstance(a.args[0], tuple) and a.args[0][:1] == ('crc',):
        return ('crc', a.args[0][1], a.args[0][2] + segs)
    return ('crc', init, segs)

def c_crc(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[1])
    segs = content(I, st, sl)
    k = crc_of(st, a[0], segs)
    if len(k[2]) != len(segs): k = (k[0], k[1], I.seg_merge(st, k[2]))
    return ret(st, sym(k, 0, 65535))

def c_stuff(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0]); n = a[1]
    def cont(st):
        segs = content(I, st, subslice(st, sl, ZERO, n))
        k = sym(('nstuff', segs), 0, MAXLEN)
        f = st.F.assume(c_and(ge(n - k * 3), ge(k)))
        if not f: return []
        st.F = f[0]
        L = n + k
        out = []
        s2 = st.copy()
        for s in assume1(st, le(L, sl.len)):
            q = seq_of(I, s, sl)
            src = Seq('u8', L, ('fn', ('stuff', segs)), ())
            I.write(s, (sl.cell, sl.path), I.seq_copy_raw(s, q, sl.off, L, src, ZERO))
            s.ev = s.ev + (('stuff', segs, n, 'ok'),)
            out.append((s, 'ret', ok(I, ty, L)))
        for s in assume1(s2, lt(sl.len, L)):
            q = seq_of(I, s, sl)
            src = Seq('u8', sl.len, ('fn', ('stuff_failed', segs)), ())
            I.write(s, (sl.cell, sl.path), I.seq_copy_raw(s, q, sl.off, sl.len, src, ZERO))
            s.ev = s.ev + (('stuff', segs, n, 'err'),)
            ety = field_ty(I, ty, 1)
            t = I.P.types[ety]
            e = Agg(t['name'], 0, tuple(s.F.norm(x) for x in bts_fields(t, L, sl.len))) if t.get('k') == 'adt' and len(t['variants'][0]['fields']) == 2 else I.mk(ety, ('stuff_err', segs))
            out.append((s, 'ret', err(I, ty, e)))
        return out
    return guarded(I, st, fr, le(n, sl.len), 'stuff_inplace: length exceeds buffer', cont)

def bts_fields(t, required, total):
    """Fields of BufferTooSmallError by name (required_size / total_size)."""
    out = []
    for f in t['variants'][0]['fields']:
        out.append(required if f['name'].startswith('req') else total)
    return out

def c_unstuff(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    segs = content(I, st, sl)
    n = sym(('unstufflen', segs), 0, MAXLEN)
    out = []
    f = st.F.assume(c_and(le(n, sl.len), ge(n * 4 - sl.len * 3)))
    if not f: return []
    st.F = f[0]
    q = seq_of(I, st, sl)
    q = I.seq_copy_raw(st, q, sl.off, n, Seq('u8', n, ('fn', ('unstuff', segs)), ()), ZERO)
    q = I.seq_copy_raw(st, q, sl.off + n, sl.len - n, Seq('u8', sl.len, ('fn', ('unstuff_rest', segs)), ()), ZERO)
    I.write(st, (sl.cell, sl.path), q)
    return ret(st, n)

PREFIX = (255, 255, 253, 0)
def c_find_header(I, st, fr, c, a, ty, span, aty):
    sl = as_slice(I, st, a[0])
    segs = content(I, st, sl)
    old = []
    if loops.REFUTE:
        # bounded mode: the result of an earlier search through the same bytes, known less precisely then
        from rules3 import fact_atoms
        from spec import same_seq, norm_seg
        for x in fact_atoms(st):
            if x.kind == 'sym' and isinstance(x.args[0], tuple) and x.args[0][:1] == ('find_header',) and x.args[0][1] != segs:
                try:
                    if same_seq(I, st, tuple(norm_seg(st, s) for s in x.args[0][1]), segs): old.append(A(x))
                except (Unsup, Split): pass
    def known(g):
        for x in old:
            f = st.F.assume(eq(g - x))
            if not f: return False
            st.F = f[0]
        return True
    if all(s[0] == 'v' for s in segs):
        bs = [st.F.norm(b).const() if isinstance(b, Poly) else None for s in segs for b in s[1]]
        if None not in bs:
            g = C(next(i for i in range(len(bs) + 1) if tuple(bs[i:i + 4]) == tuple(PREFIX[:len(bs) - i])))
            return ret(st, g) if known(g) else []
    g = sym(('find_header', segs), 0, MAXLEN)
    f = st.F.assume(le(g, sl.len))
    if not f: return []
    st.F = f[0]
    if not known(g): return []
    d = st.F.norm(sl.len - g)
    for j in range(4):
        if I.truth(st, ge(d - (j + 1))):
            b = get(I, st, sl, g + j)
            f = st.F.assume(eq(b - PREFIX[j]))
            if not f: return []
            st.F = f[0]
        else: break
    if loops.REFUTE and segs[0][0] == 'v':
        # bounded mode: also the leftmost one, among the bytes of known value
        for i in range(len(segs[0][1])):
            if not I.truth(st, ge(g - (i + 1))): break
            for j in range(4):
                if not I.truth(st, ge(sl.len - (i + j + 1))): return []
                if not I.truth(st, eq(get(I, st, sl, C(i + j)) - PREFIX[j])): break
            else: return []
    return ret(st, g)

def kernel_contracts(P, names=('crc', 'stuff', 'unstuff', 'find_header')):
    h = {'crc': c_crc, 'stuff': c_stuff, 'unstuff': c_unstuff, 'find_header': c_find_header}
    return {anchor(P, n)['path']: h[n] for n in names}

# ------------------------------------------------------------------ invariants
def find_adt(P, suffix):
    for i, t in enumerate(P.types):
        if t.get('k') == 'adt' and t['path'].endswith(suffix): return i
    raise Missing(f'type {suffix} not found')

def u8slice_field(P, t):
    for i, f in enumerate(t['variants'][0]['fields']):
        ft = P.types[f['ty']]
        if ft.get('k') == 'ref' and P.types[ft['ty']].get('k') == 'slice': return i
    return None

class BusLayout:
    """Roles of the fields of the bus struct, found by their types and uses."""
    def __init__(self, P):
        self.tid = bus_type(P)
        t = P.types[self.tid]
        self.path = t['path']
        r = anchor(P, 'recv')
        body = P.bodies[r['body']]
        self.modified = field_effects(P, body, self.path)
        fs = t['variants'][0]['fields']
        self.n = len(fs)
        bufs = []; self.baud = None; self.usize = []; self.port = None
        for i, f in enumerate(fs):
            ft = P.types[f['ty']]
            if ft.get('k') == 'int' and ft['name'] == 'u32' and self.baud is None: self.baud = i
            elif ft.get('k') == 'int' and ft['name'] == 'usize': self.usize.append(i)
        # the type that occurs twice is the buffer type
        tys = [P.canon(f['ty']) for f in fs]
        for i, x in enumerate(tys):
            if tys.count(x) == 2 and P.types[fs[i]['ty']].get('k') not in ('int', 'bool'): bufs.append(i)
        self.bufs = bufs
        for i, f in enumerate(fs):
            if i not in bufs and i != self.baud and i not in self.usize: self.port = i
        if len(bufs) != 2 or self.baud is None: raise Missing('bus struct layout')
        m = self.modified
        self.rbuf = self.wbuf = None
        if m is not None:
            mb = [b for b in bufs if b in m]
            if len(mb) == 1:
                self.rbuf = mb[0]; self.wbuf = [b for b in bufs if b != mb[0]][0]
        if self.rbuf is None:
            nm = {f['name']: i for i, f in enumerate(fs)}
            for b in bufs:
                if 'read' in fs[b]['name']: self.rbuf = b
                if 'write' in fs[b]['name']: self.wbuf = b
            if self.rbuf is None or self.wbuf is None: raise Missing('read and write buffer of the bus')
        self.names = [f['name'] for f in fs]

def buflen(I, v):
    if isinstance(v, BufV): return v.seq.len
    if isinstance(v, Seq): return v.len
    if isinstance(v, Opq): return sym((v.key, 'buflen'), 0, MAXLEN)
    if isinstance(v, Slice): return v.len
    return None
def bufbyte(I, v, i):
    if isinstance(v, Opq): return sym((('sym', (v.key, 'buf'), None)[1], 'el', C(i)), 0, 255)
    return None

WMIN = 10
def bus_invariants(P, L):
    """Candidates for object invariants of the bus: (name, function (I, Agg) -> condition or None)."""
    out = []
    for i in L.usize:
        out.append((f'{L.names[i]} <= {L.names[L.rbuf]}.len()', lambda I, a, i=i: le(a.fields[i], buflen(I, a.fields[L.rbuf])) if isinstance(a.fields[i], Poly) and buflen(I, a.fields[L.rbuf]) is not None else None))
        for j in L.usize:
            if i != j:
                out.append((f'{L.names[i]} <= {L.names[j]}', lambda I, a, i=i, j=j: le(a.fields[i], a.fields[j]) if isinstance(a.fields[i], Poly) and isinstance(a.fields[j], Poly) else None))
    out.append((f'{L.names[L.wbuf]}.len() >= {WMIN}', lambda I, a: ge(buflen(I, a.fields[L.wbuf]) - WMIN) if buflen(I, a.fields[L.wbuf]) is not None else None))
    for k in range(4):
        def f(I, a, k=k, st=None):
            v = a.fields[L.wbuf]
            if isinstance(v, Opq): return eq(sym(((v.key, 'buf'), 'el', C(k)), 0, 255) - PREFIX[k])
            if isinstance(v, BufV): return ('wbyte', v, k)
            return None
        out.append((f'{L.names[L.wbuf]}[{k}] == {PREFIX[k]}', f))
    return out

def check_inv(I, st, c):
    """Does the invariant condition c hold in st?"""
    if c is None: return None
    if isinstance(c, tuple) and c and c[0] == 'wbyte':
        try: b = I.seq_get(st, c[1].seq, C(c[2]))
        except (Unsup, Split): return None
        return isinstance(b, Poly) and st.F.proves(eq(b - PREFIX[c[2]]))
    return st.F.proves(c)

def c_recv_for(L):
    def c_recv(I, st, fr, c, a, ty, span, aty):
        st.n += 1
        n = st.n
        dk = vkey(I, st, a[1])
        bus = I.read(st, (a[0].cell, a[0].path))
        if isinstance(bus, Opq): bus = I.expand(st, bus)
        fs = list(bus.fields)
        t = I.P.types[L.tid]
        mod = L.modified if L.modified is not None else set(range(L.n))
        for i in mod:
            if i == L.port: continue
            fty = t['variants'][0]['fields'][i]['ty']
            if i in L.bufs:
                v = fs[i]
                fs[i] = BufV(v.ty if isinstance(v, (BufV, Opq)) else fty, v.key if isinstance(v, (BufV, Opq)) else ('buf', i), Seq('u8', buflen(I, v), ('sym', ('recvbuf', n, i), None), ()))
            else: fs[i] = I.mk(fty, ('recv', n, i))
        nb = Agg(bus.ty, 0, tuple(fs))
        I.assume_all(st, I.inv_conds(t, nb))
        I.write(st, (a[0].cell, a[0].path), nb)
        okd = I.truth(st, ('bv', ('recvok', n), True))
        st.ev = st.ev + (('await', dk, 'ok' if okd else 'err', n),)
        if okd:
            v = I.mk(field_ty(I, ty, 0), ('pkt', n))
            if isinstance(v, Opq): v = I.expand(st, v)
            return ret(st, ok(I, ty, v))
        return ret(st, err(I, ty, I.mk(field_ty(I, ty, 1), ('recverr', n))))
    return c_recv

def pkt_slice(I, a):
    """The data slice inside a Packet / StatusPacket / InstructionPacket value."""
    if isinstance(a, Slice): return a
    if isinstance(a, Agg):
        for f in a.fields:
            r = pkt_slice(I, f)
            if r is not None: return r
    if isinstance(a, Opq):
        t = I.P.types[a.ty]
        if t.get('k') == 'adt' and t['path'] in I.inv and t['kind'] == 'struct':
            fs = t['variants'][0]['fields']
            return pkt_slice(I, Agg(t['name'], 0, tuple(I.mk(f['ty'], (a.key, 0, i)) for i, f in enumerate(fs))))
    return None

def ext_byte(I, sl, i):
    """Element i of a slice of an external cell (no side effects)."""
    e = I.ext.get(sl.cell)
    if e is None or e[0] != 'seq' or sl.path: return None
    return I.mk(e[1], (sl.cell, 'el', sl.off + i))

def packet_invariants(P):
    def packet(I, a):
        s = pkt_slice(I, a)
        if s is None: return []
        b = ext_byte(I, s, 7)
        return [ge(s.len - 8)] + ([c_or(ne(b - 0x55), ge(s.len - 9))] if b is not None else [])
    def status(I, a):
        s = pkt_slice(I, a)
        if s is None: return []
        b = ext_byte(I, s, 7)
        return [ge(s.len - 9)] + ([eq(b - 0x55)] if b is not None else [])
    def instr(I, a):
        s = pkt_slice(I, a)
        if s is None: return []
        b = ext_byte(I, s, 7)
        return [ge(s.len - 8)] + ([ne(b - 0x55)] if b is not None else [])
    out = {}
    for suffix, f in (('packet::Packet', packet), ('packet::StatusPacket', status), ('packet::InstructionPacket', instr)):
        for t in P.types:
            if t.get('k') == 'adt' and t['path'].endswith(suffix): out[t['path']] = [f]
    return out
