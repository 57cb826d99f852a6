"""Rules about the operations of the client and the status replies of the device (P01, P07-P10, P14-P16, P19, P20, P24, P25).

Every rule is evaluated on the partitioned exit states of one entry point: each partition carries the port operations
that were performed (with the symbolic contents that were transmitted), the returned value and the facts that lead there."""
from spec import *
from session import *

E_DEFAULT = sym(('const', '<T as bus::data::Data>::ENCODED_SIZE'), 0, 65535)

def props(names): return {p: Rep() for p in names}
PROPS = ('P01', 'P07', 'P08', 'P09', 'P10', 'P14', 'P15', 'P16', 'P19', 'P24', 'P25', 'P05')

# ------------------------------------------------------------------ what the protocol prescribes for each command
def v8(*xs): return ('v', tuple(x if isinstance(x, Poly) else C(x) for x in xs))
def le16(I, st, x): return ('v', tuple(to_bytes(I, st, x, 2)))
def esize(I, st, segs):
    """The encoded size of the value type (an associated constant of the type parameter)."""
    for n in getattr(I.P, '_esize', ()) or enc_consts(I): return n
    return E_DEFAULT
def enc_consts(I):
    out = []
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'sym' and str(x.get('name', '')).endswith('::ENCODED_SIZE'): out.append(x['name'])
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    return out

def encoded(I, st, key, E): return ('c', ('fn', ('encode', key, st.F.norm(E))), ZERO, E)
def bytes_of(I, st, a): return content(I, st, as_slice(I, st, a))
def asref_item(I, K, k):
    """Key of the struct behind item.as_ref() for the k-th item of an iterator with key K."""
    return (('x', ('asref', ('ref', ('opq', (K, 'item', k))))), '*')
def fld(base, i): return (base, 0, i)

def p_addr_data(I, st, a, E): return (le16(I, st, a[2]),) + tuple(bytes_of(I, st, a[3]))
def p_addr_value(I, st, a, E): return (le16(I, st, a[2]), encoded(I, st, vkey(I, st, deref(I, st, a[3])), E))
def p_none(I, st, a, E): return ()
def p_reset(arg):
    def f(I, st, a, E):
        k = a[arg]
        if isinstance(k, Opq):
            i = I.variant_of(st, k)
            t = I.P.types[k.ty]
            name = t['variants'][i]['name']
        else: name = vname(I, k)[1]
        return (v8({'ResetAll': 0xFF, 'KeepId': 1, 'KeepIdAndBaudRate': 2}[name]),)
    return f
CLEAR = lambda *b: (lambda I, st, a, E: (v8(*b),))
def p_fn(cnt, f):
    return lambda I, st, a, E: (('c', ('fn', ('enc', st.F.nkey(a[f].key), st.F.norm(a[cnt]))), ZERO, a[cnt]),)
def loop(I, st, n, f):
    """n records, the k-th of which has the content f(k)."""
    kv = atom('bound', ('spec', fresh_id()), 0, None)
    return ('l', kv, n, tuple(f(A(kv))))

def sync_write_item(struct, typed):
    def f(I, st, a, E):
        t = I.P.types[find_adt(I.P, struct)]
        names = [x['name'] for x in t['variants'][0]['fields']]
        K = a[2 if typed else 3].key
        n = sym((K, 'count'), 0, MAXLEN)
        def item(k):
            b = asref_item(I, K, k)
            mid = sym(fld(b, names.index('motor_id')), 0, 255)
            d = fld(b, names.index('data'))
            if typed: return [('v', (mid,)), encoded(I, st, ('opq', d), E)]
            return [('v', (mid,)), ('c', ('sym', (d, 'buf'), None), ZERO, a[2])]
        cnt = E if typed else a[2]
        return (le16(I, st, a[1]), le16(I, st, cnt), loop(I, st, n, item))
    return f
def bulk_read_items(I, st, a, E):
    t = I.P.types[find_adt(I.P, 'BulkReadData')]
    names = [x['name'] for x in t['variants'][0]['fields']]
    sl = as_slice(I, st, a[1])
    base = sl.cell
    def item(k):
        b = (base, 'el', k)
        g = lambda n, hi: sym(fld(b, names.index(n)), 0, hi)
        s2 = st.copy()
        return [('v', (g('motor_id', 255),)), le16(I, s2, g('address', 65535)), le16(I, s2, g('count', 65535))]
    return (loop(I, st, sl.len, item),)
def bulk_write_items(I, st, a, E):
    t = I.P.types[find_adt(I.P, 'BulkWriteData')]
    names = [x['name'] for x in t['variants'][0]['fields']]
    K = ('refiter', (a[1].cell, '*'))
    n = sym((K, 'count'), 0, MAXLEN)
    def item(k):
        b = asref_item(I, K, k)
        g = lambda n, hi: sym(fld(b, names.index(n)), 0, hi)
        d = fld(b, names.index('data'))
        ln = sym((d, 'buflen'), 0, MAXLEN)
        lo = st.F.norm(ln - mk_div(ln, 256) * 256)
        hi = mk_div(ln, 256) - mk_div(ln, 65536) * 256
        return [('v', (g('motor_id', 255),)), le16(I, st.copy(), g('address', 65535)), ('v', (lo, hi)), ('c', ('sym', (d, 'buf'), None), ZERO, ln)]
    return (loop(I, st, n, item),)
def p_sync_read(cnt):
    return lambda I, st, a, E: (le16(I, st, a[2]), le16(I, st, E if cnt is None else a[cnt])) + tuple(bytes_of(I, st, a[1]))

class Cmd:
    """id: argument index of the packet ID or 'bc'; params: builder; reply: None, or ('unit'|'ping'|'value'|'bytes'|'raw', expected count)."""
    def __init__(self, instr, pid, params, reply=None, count=None, bcast=False, typed=False, iterator=False):
        self.instr = instr; self.pid = pid; self.params = params; self.reply = reply; self.count = count; self.bcast = bcast
        self.typed = typed; self.iterator = iterator

def count_arg(i): return lambda I, a, E: a[i]
def count_E(I, a, E): return E
def count_n(n): return lambda I, a, E: C(n)
UC = dict(reply='unit', count=count_n(0), bcast=True)
CLIENT = {
    'ping': Cmd(0x01, 1, p_none, 'ping', count_n(3)),
    'scan': Cmd(0x01, 'bc', p_none, iterator=True),
    'read': Cmd(0x02, 1, lambda I, st, a, E: (le16(I, st, a[2]), le16(I, st, E)), 'value', count_E, typed=True),
    'read_bytes': Cmd(0x02, 1, lambda I, st, a, E: (le16(I, st, a[2]), le16(I, st, a[3])), 'bytes', count_arg(3)),
    'write': Cmd(0x03, 1, p_addr_value, typed=True, **UC),
    'write_bytes': Cmd(0x03, 1, p_addr_data, **UC),
    'reg_write': Cmd(0x04, 1, p_addr_value, typed=True, **UC),
    'reg_write_bytes': Cmd(0x04, 1, p_addr_data, **UC),
    'action': Cmd(0x05, 1, p_none, **UC),
    'broadcast_action': Cmd(0x05, 'bc', p_none),
    'factory_reset': Cmd(0x06, 1, p_reset(2), **UC),
    'broadcast_factory_reset': Cmd(0x06, 'bc', p_reset(1)),
    'reboot': Cmd(0x08, 1, p_none, **UC),
    'broadcast_reboot': Cmd(0x08, 'bc', p_none),
    'clear_revolution_counter': Cmd(0x10, 1, CLEAR(0x01, 0x44, 0x58, 0x4C, 0x22), **UC),
    'broadcast_clear_revolution_counter': Cmd(0x10, 'bc', CLEAR(0x01, 0x44, 0x58, 0x4C, 0x22)),
    'clear_error': Cmd(0x10, 1, CLEAR(0x02, 0x45, 0x52, 0x43, 0x4C), **UC),
    'broadcast_clear_error': Cmd(0x10, 'bc', CLEAR(0x02, 0x45, 0x52, 0x43, 0x4C)),
    'sync_read': Cmd(0x82, 'bc', p_sync_read(None), typed=True, iterator=True),
    'sync_read_bytes': Cmd(0x82, 'bc', p_sync_read(3), iterator=True),
    'sync_read_bytes_borrow': Cmd(0x82, 'bc', p_sync_read(3), iterator=True),
    'sync_write': Cmd(0x83, 'bc', sync_write_item('SyncWriteData', True), typed=True),
    'sync_write_bytes': Cmd(0x83, 'bc', sync_write_item('SyncWriteData', False)),
    'bulk_read_bytes': Cmd(0x92, 'bc', bulk_read_items, iterator=True),
    'bulk_read_bytes_borrow': Cmd(0x92, 'bc', bulk_read_items, iterator=True),
    'bulk_write': Cmd(0x93, 'bc', bulk_write_items),
    'write_instruction': Cmd(2, 1, p_fn(3, 4)),
    'transfer_single': Cmd(2, 1, p_fn(3, 5), 'raw', None),
}
CLIENT['write_instruction'].instr = 'arg2'; CLIENT['transfer_single'].instr = 'arg2'
DEVICE = {   # status replies: S = 55, error, parameters
    'write_status': Cmd(0x55, 1, lambda I, st, a, E: (('v', (a[2],)),) + p_fn(3, 4)(I, st, a, E)),
    'write_status_error': Cmd(0x55, 1, lambda I, st, a, E: (('v', (a[2],)),)),
    'write_status_ok': Cmd(0x55, 1, lambda I, st, a, E: (v8(0),)),
}

def is_client(r): return r['self_ty'].startswith('client::Client') and not r['trait']
def is_device(r): return r['self_ty'].startswith('device::Device') and not r['trait']
def cmd_of(r):
    if is_client(r): return CLIENT.get(r['name'])
    if is_device(r): return DEVICE.get(r['name'])
    return None

# ------------------------------------------------------------------ running
def bus_loc(S, I, st, v, seen=()):
    """Location of the bus struct reachable from a value."""
    P = I.P
    busname = P.types[S.L.tid]['path']
    work = [(v, None)]
    seen = set()
    while work:
        x, loc = work.pop(0)
        if isinstance(x, Ptr):
            k = (x.cell, x.path)
            if k in seen: continue
            seen.add(k)
            try: work.append((I.read(st, k), k))
            except (Unsup, Split): pass
        elif isinstance(x, Agg):
            t = adt(I, x)
            if t is not None and t['path'] == busname: return loc
            for i, f in enumerate(x.fields): work.append((f, None if loc is None else (loc[0], loc[1] + (('f', i),))))
    return None
def bus_fields(S, I, st, args):
    for a in args:
        loc = bus_loc(S, I, st, a)
        if loc is not None:
            b = I.read(st, loc)
            if isinstance(b, Opq): b = I.expand(st, b)
            return b.fields
    return None

def hook_held(S):
    """At each transmission: the received bytes the bus still holds."""
    def on_write(I, st, fr):
        a = getattr(I, 'root_args', None)
        if not a: return None
        fs = bus_fields(S, I, st, a)
        if fs is None: return None
        us = [fs[i] for i in S.L.usize]
        return tuple(us)
    return {'write': on_write}

def transfer_time(S, I, st, size, baud):
    """Exit states and durations of the crate's own transfer time function (checked on its own by P19)."""
    r = anchor(I.P, 'transfer_time')
    return [(s, v) for s, k, v in I.run_body(st.copy(), I.P.bodies[r['body']], [size, baud], None, None) if k == 'ret']

def sufficient(S, I, st, deadline, size, baud, times=1, margin=34000000):
    """deadline >= times * transfer_time(size) + 34 ms, in every case."""
    def f(s0):
        outs = transfer_time(S, I, s0, size, baud)
        if not outs: return False
        for s, v in outs:
            if s.F.infeasible(): continue
            if not isinstance(v, Dur) or not s.F.prove_ge(s.F.norm(deadline) - v.nanos * times - margin): return False
        return True
    return every(I, st, f)

def analyse(S, path):
    """All rules for one entry point."""
    r = [x for x in S.roots if x['path'] == path][0]
    reps = props(PROPS)
    R = S.run(r, hooks=hook_held(S))
    for p in reps.values(): p.saw(R)
    I = R.I
    nm = short(path)
    cmd = cmd_of(r)
    if cmd is not None: panics_rule(R, reps['P08'], r, nm)
    for st, kind, v in R.outs:
        if kind != 'ret': continue
        generic(S, R, st, v, reps, nm, cmd)
        if cmd is not None:
            command(S, R, st, v, reps, nm, cmd, r)
    if cmd is not None and not R.error and not I.stuck:
        succ = [o for o in R.outs if o[1] == 'ret' and has(I, o[0].ev, 'write')]
        for p in ('P01', 'P08', 'P09'):
            reps[p].must(bool(succ), f'{nm}: transmits its command', 'no path transmits')
    return {k: v for k, v in reps.items()}

def panics_rule(R, rep, r, nm):
    """A command never answers arguments with a panic, except for the documented faults."""
    import rules3
    I = R.I; a = R.args; name = r['name']
    key = f'{nm}: no panic instead of a refusal'
    for p in I.panics:
        if p.st.F.infeasible() or p.kind != 'panic' or has(I, p.st.ev, 'write', 'await', 'read', 'deadline'): continue
        if name in rules3.FAULTS:
            rep.must(lambda: every(I, p.st, lambda s: rules3.fault(I, s, name, a) is not None), key, f'{p.msg} in {short(p.site)}', p.st)
        else:
            rep.must(False, key, f'{p.msg} in {short(p.site)}: ' + ' > '.join(short(x) if isinstance(x, str) else str(x) for x in p.chain)[:300], p.st)
    if not R.error and not I.stuck: rep.must(True, key)

# ------------------------------------------------------------------ rules that hold for every function
def generic(S, R, st, v, reps, nm, cmd):
    I = R.I
    res = Res(I, v)
    last_stuff = None; discards = 0; writes = 0; failed_w = None; failed_d = None; after = None
    seq = list(events(I, st.ev))
    for e, star in seq:
        k = e[0]
        if failed_d is not None and k in ('write', 'await', 'read', 'discard', 'deadline') and not star:
            reps['P24'].must(False, f'{nm}: no port operation after a failed discard', k, st)
        if failed_w is not None and k in ('await', 'read', 'write', 'discard') and not star:
            reps['P24'].must(False, f'{nm}: no reply is awaited after a failed write', k, st)
        if k == 'stuff': last_stuff = e
        elif k == 'discard':
            discards += 1
            if e[1] == 'err': failed_d = e
        elif k == 'write':
            writes += 1
            why = []
            S0 = last_stuff[1] if last_stuff is not None else None
            reps['P01'].must(S0 is not None, f'{nm}: the transmitted body is byte-stuffed', show_segs(e[1][:2]), st)
            if S0 is not None:
                reps['P01'].must(lambda: every(I, st, lambda s: check_frame(I, s, e[1], S0, why)), f'{nm}: one write with exactly one well-formed frame', '; '.join(why), st) or reps['P01'].viol.update({k: '; '.join(why)[:500] for k in list(reps['P01'].viol) if k.startswith(f'{nm}: one write')})
                last_stuff = None
            reps['P01'].must(discards == 1, f'{nm}: one write per transmission', f'{writes} writes, {discards} discards', st)
            reps['P07'].must(discards == 1, f'{nm}: input is discarded before the message is written', f'{discards} discards before the write', st)
            discards = 0
            held = e[4] if len(e) > 4 else None
            if held is not None and len(held) == 2:
                reps['P07'].must(lambda: st.F.prove_eq(held[0], held[1]), f'{nm}: received bytes held by the bus are dropped before transmitting', f'{show_val(held)}', st)
            if e[2] == 'err': failed_w = e
    if writes == 0 and not failed_d:
        reps['P07'].must(discards == 0, f'{nm}: nothing is discarded without a transmission', f'{discards} discards', st)
    if writes and discards:
        reps['P07'].must(bool(failed_d), f'{nm}: nothing is discarded after a transmission', '', st)
    # errors of the port
    if failed_d is not None:
        reps['P24'].must(res.err('DiscardBuffer') and is_port_err(res.leaf, 'discard') , f'{nm}: discard error is returned', f'{str(v)[-160:]}', st)
    if failed_w is not None:
        reps['P24'].must(res.err('Write') and is_port_err(res.leaf, 'write'), f'{nm}: write error is returned', f'{str(v)[-160:]}', st)
def is_port_err(x, what): return isinstance(x, Opq) and isinstance(x.key, tuple) and x.key[:2] == ('porterr', what)

# ------------------------------------------------------------------ rules for commands
def expected_body(I, st, cmd, a, E):
    ins = a[2] if cmd.instr == 'arg2' else C(cmd.instr)
    return (('v', (ins,)),) + tuple(cmd.params(I, st, a, E))

def command(S, R, st, v, reps, nm, cmd, r):
    I = R.I; a = R.args
    res = Res(I, v)
    fs = bus_fields(S, I, st, a)
    wlen = buflen(I, fs[S.L.wbuf]) if fs is not None else None
    baud = fs[S.L.baud] if fs is not None else None
    evs = list(events(I, st.ev))
    writes = [e for e, s in evs if e[0] == 'write']
    E = esize(I, st, None)
    pid = C(254) if cmd.pid == 'bc' else a[cmd.pid]
    # --- P08: refusals
    if not writes and not any(e[0] == 'discard' for e, s in evs):
        if fs is not None and len(S.L.usize) == 2:
            b0 = bus_fields(S, I, R.entry, a)
            def kept(s):
                x, y = [fs[i] for i in S.L.usize]; x0, y0 = [b0[i] for i in S.L.usize]
                return s.F.prove_eq(x, x0) and s.F.prove_eq(y, y0) or s.F.prove_eq(x - y, x0 - y0)
            for P_ in ('P07', 'P08'): reps[P_].must(lambda: every(I, st, kept), f'{nm}: a refused message leaves the received bytes alone', show_val(tuple(fs[i] for i in S.L.usize)), st)
        what = f'{nm}: a message that is not transmitted is reported as too large for the buffer'
        good = reps['P08'].must(res.err('BufferTooSmall'), what, str(v)[-200:], st)
        reps['P08'].must(not any(e[0] in ('await', 'read') for e, s in evs), f'{nm}: no reply is awaited for a refused message', '', st)
        if good and isinstance(res.leaf, Agg):
            def refused(s):
                S1 = expected_body(I, s, cmd, a, E)
                n = seq_len(I, S1)
                stuffed = [e for e, _ in evs if e[0] == 'stuff']
                F = s.F
                if F.prove_ge(n + 9 - wlen - 1): return True          # does not fit without stuffing
                if F.prove_ge(n + 2 - 65536): return True
                for e in stuffed:
                    n2 = seq_len(I, e[1]) + sym(('nstuff', e[1]), 0, MAXLEN)
                    if F.prove_ge(n2 + 9 - wlen - 1) or F.prove_ge(n2 + 2 - 65536): return True
                return False
            reps['P08'].must(lambda: every(I, st, refused), f'{nm}: a message that fits is not refused', str(v)[-200:], st)
        elif good:
            reps['P08'].must(isinstance(res.leaf, Opq) and res.leaf.key[0] in ('enc_err', 'encode_err', 'stuff_err'), f'{nm}: the error of the encoder is returned', str(v)[-200:], st)
        return
    if writes:
        w = writes[0]
        reps['P08'].must(lambda: every(I, st, lambda s: s.F.prove_ge(wlen - seq_len(I, w[1]))), f'{nm}: the whole message fits the write buffer', '', st)
        reps['P08'].must(not any(e[0] in ('await', 'read', 'write', 'discard') for e, _ in evs[:[x[0] for x in evs].index(w)] if e[0] not in ('discard',)), f'{nm}: nothing else touches the port first', '', st)
        # --- P09 / P10: content
        p = split_frame(I, st, w[1])
        stuffed = [e for e, _ in evs if e[0] == 'stuff']
        # raw messages and status replies are what the caller says (P01), commands are what the protocol says (P09)
        mine = ('P01',) if cmd.instr == 0x55 else ('P01', 'P09') if cmd.instr == 'arg2' else ('P09',)
        if p is not None and stuffed:
            why = []
            key = f'{nm}: addressed to ' + ('the broadcast ID' if cmd.pid == 'bc' else 'the given motor')
            for P_ in mine: reps[P_].must(lambda: every(I, st, lambda s: same_val(I, s, p[0], pid)), key, show_val(p[0]), st)
            key = f'{nm}: instruction and parameters'
            okk = None
            try: okk = every(I, st, lambda s: same_seq(I, s, stuffed[-1][1], expected_body(I, s, cmd, a, E), why))
            except (Unsup, Split) as e: why.append('not decided: ' + str(e))
            for P_ in mine + (('P10',) if cmd.typed else ()):
                if okk is None: reps[P_].und[key] = '; '.join(why)
                else: reps[P_].must(okk, key, '; '.join(why), st)
        elif p is None: reps['P09'].must(False, f'{nm}: instruction and parameters', 'no frame', st)
    wrote = bool(writes) and writes[-1][2] == 'ok'
    awaits = [(e, s) for e, s in evs if e[0] == 'await']
    if not wrote: return
    # --- P16: broadcast
    if cmd.reply is None:
        reps['P16'].must(not awaits and not any(e[0] in ('read', 'deadline') for e, _ in evs), f'{nm}: never waits for a reply', '', st)
        reps['P16'].must(res.ok is True, f'{nm}: succeeds when the message is transmitted', str(v)[-160:], st)
        return
    if not awaits:
        reps['P16'].must(cmd.bcast and st.F.prove_eq(pid, C(254)), f'{nm}: only commands to the broadcast ID do not wait', '', st)
        good = res.ok is True and isinstance(res.val, Agg) and st.F.prove_eq(field(I, res.val, 'motor_id'), C(254)) and field(I, res.val, 'alert') is False
        reps['P16'].must(good, f'{nm}: broadcast gives a success response from the broadcast ID', str(v)[-160:], st)
        return
    if cmd.bcast: reps['P16'].must(lambda: every(I, st, lambda s: s.F.decide(eq(pid - 254)) is False), f'{nm}: commands to the broadcast ID never wait', '', st)
    reps['P16'].must(len(awaits) == 1 and not awaits[0][1], f'{nm}: awaits exactly one reply', f'{len(awaits)} waits', st)
    count = cmd.count(I, a, E) if cmd.count else (a[4] if r['name'] == 'transfer_single' else None)
    single_wait(S, R, st, reps, nm, awaits[-1][0], evs, baud, count, 11, typed=cmd.typed and cmd.reply == "value")
    reply(S, R, st, v, res, reps, nm, awaits[-1][0], pid, None if cmd.reply == 'raw' else count, cmd.reply, cmd.typed)

def single_wait(S, R, st, reps, nm, aw, evs, baud, count, base, times=1, typed=False):
    """P19: one deadline per wait, long enough."""
    I = R.I
    dls = [e for e, _ in evs if e[0] == 'deadline']
    reps['P19'].must(len(dls) == 1, f'{nm}: one deadline per wait', f'{len(dls)} deadlines', st)
    dk = aw[1]
    ok_ = isinstance(dk, tuple) and dk[0] == 'opq' and isinstance(dk[1], tuple) and dk[1][0] == 'deadline' and dls and same_key(I, st, st.F.norm(dk[1][1]), st.F.norm(dls[-1][1]))
    reps['P19'].must(ok_, f'{nm}: the wait uses its deadline unchanged', str(dk)[:100], st)
    if ok_ and count is not None and baud is not None:
        reps['P19'].must(lambda: sufficient(S, I, st, dls[-1][1], count + base, baud, times), f'{nm}: the timeout covers the expected reply and 34 ms', str(dls[-1][1])[:200], st)
        if typed: reps['P10'].must(lambda: sufficient(S, I, st, dls[-1][1], count + base, baud, times, 0), f'{nm}: waits for a reply with the encoded size of the value', str(dls[-1][1])[:200], st)

def reply(S, R, st, v, res, reps, nm, aw, pid, count, kind, typed):
    """P14, P15, P24 for one awaited reply and the value that results from it."""
    I = R.I
    F = st.F
    n = aw[3]
    if aw[2] == 'err':
        good = res.ok is False and isinstance(res.leaf, Opq) and res.leaf.key == ('recverr', n)
        if not good and res.ok is False: good = is_recverr(I, res, n)
        reps['P24'].must(good, f'{nm}: a receive error is returned unchanged', str(v)[-200:], st)
        reps['P14'].must(res.ok is False, f'{nm}: no value without a packet', str(v)[-200:], st)
        return
    pk = Pkt(I, n)
    low7 = st.F.norm(pk.err - I.div(st, pk.err, 128) * 128)
    is_status = eq(pk.instr - 0x55)
    noerr = eq(low7)
    if res.ok:
        reps['P14'].must(lambda: F.proves(is_status), f'{nm}: only status packets are accepted', '', st)
        reps['P15'].must(lambda: F.proves(noerr), f'{nm}: a reply with an error number never succeeds', '', st)
        if pid is not None: reps['P14'].must(lambda: F.prove_eq(pk.id, pid), f'{nm}: only replies of the addressed motor are accepted', '', st)
        if count is not None: reps['P14'].must(lambda: every(I, st, lambda s: s.F.prove_eq(pk.nparams, count)), f'{nm}: only replies with the expected number of parameters are accepted', '', st)
        payload(S, R, st, res.val, reps, nm, pk, kind, typed)
        return
    c = res.chain[-1] if res.chain else None
    lf = res.leaf
    if 'MotorError' in res.chain:
        reps['P15'].must(lambda: F.proves(is_status) and F.proves(ne(low7)), f'{nm}: a motor error is only reported for an error number', '', st)
        reps['P15'].must(lambda: F.prove_eq(field(I, lf, 'raw'), pk.err), f'{nm}: the motor error has the raw error value', str(lf)[:120], st)
        return
    if 'InvalidMessage' in res.chain or isinstance(lf, Opq):
        if isinstance(lf, Opq) and isinstance(lf.key, tuple) and lf.key[0] == 'decode_err':
            reps['P15'].must(lambda: F.proves(is_status) and F.proves(noerr), f'{nm}: an error number takes precedence over decoding', '', st)
            reps['P10'].must(lambda: every(I, st, lambda s: same_seq(I, s, lf.key[1], pk.params(s))), f'{nm}: decodes exactly the received parameters', '', st)
            return
        if c == 'InvalidInstruction':
            reps['P14'].must(lambda: F.proves(c_not(is_status)) and F.prove_eq(field(I, lf, 'actual'), pk.instr) and F.prove_eq(field(I, lf, 'expected'), C(0x55)), f'{nm}: other packets give an invalid instruction error', str(lf)[-120:], st)
            return
        reps['P15'].must(lambda: F.proves(is_status) and F.proves(noerr), f'{nm}: an error number takes precedence over other errors', c, st)
        if c == 'InvalidPacketId' and pid is not None:
            exp = field(I, lf, 'expected')
            reps['P14'].must(lambda: F.decide(eq(pk.id - pid)) is False and F.prove_eq(field(I, lf, 'actual'), pk.id) and isinstance(exp, Agg) and exp.variant == 1 and F.prove_eq(exp.fields[0], pid),
                             f'{nm}: replies of other motors give an invalid packet ID error', str(lf)[-160:], st)
            return
        if c == 'InvalidParameterCount' and count is not None:
            exp = field(I, lf, 'expected')
            def f(s):
                if s.F.decide(eq(pk.nparams - count)) is not False: return False
                return s.F.prove_eq(field(I, lf, 'actual'), pk.nparams) and isinstance(exp, Agg) and vname(I, exp)[1] == 'Exact' and s.F.prove_eq(exp.fields[0], count)
            reps['P14'].must(lambda: every(I, st, f), f'{nm}: replies with another number of parameters give an invalid parameter count error', str(lf)[-160:], st)
            return
    reps['P14'].must(False, f'{nm}: an intact reply is accepted or gives the matching error', str(v)[-200:], st)
def is_recverr(I, res, n):
    """The receive error may have been taken apart and put together again."""
    def keys(x):
        if isinstance(x, Opq): return [x.key]
        if isinstance(x, Agg): return [k for f in x.fields for k in keys(f)]
        if isinstance(x, Poly): return [a.args[0] for a in all_atoms(x) if a.kind == 'sym']
        return []
    ks = keys(res.v)
    def inside(k): return k == ('recverr', n) or (isinstance(k, tuple) and any(inside(x) for x in k))
    return bool(ks) and all(inside(k) for k in ks)

def payload(S, R, st, val, reps, nm, pk, kind, typed):
    I = R.I; F = st.F
    rep = reps['P14']
    if kind == 'raw':
        def whole(s):
            sl = pkt_slice(I, val)
            return same_seq(I, s, content(I, s, sl), content(I, s, pk.sl))
        rep.must(lambda: every(I, st, whole), f'{nm}: returns exactly the received packet', str(val)[:160], st)
        return
    if not isinstance(val, Agg) or vname(I, val)[0] != 'Response':
        rep.must(False, f'{nm}: returns a response', str(val)[:160], st); return
    rep.must(lambda: F.prove_eq(field(I, val, 'motor_id'), pk.id), f'{nm}: the response carries the ID of the packet', '', st)
    reps['P15'].must(lambda: every(I, st, lambda s: iff(s, field(I, val, 'alert'), ge(pk.err - 128))), f'{nm}: the alert flag is bit 7 of the error field', str(field(I, val, 'alert'))[:120], st)
    d = field(I, val, 'data')
    def data(s):
        if kind == 'unit': return d == UNIT
        if kind == 'ping':
            return s.F.prove_eq(field(I, d, 'model'), pk.b(9) + pk.b(10) * 256) and s.F.prove_eq(field(I, d, 'firmware'), pk.b(11))
        want = pk.params(s)
        key = val_source(I, s, d)
        if key is None: return False
        return same_seq(I, s, key, want)
    P_ = [rep] + ([reps['P10']] if typed else [])
    for p in P_: p.must(lambda: every(I, st, data), f'{nm}: the response carries exactly the received data', str(d)[:200], st)
    if kind == 'value':
        dec = [e for e, _ in events(I, st.ev) if e[0] == 'decode']
        reps['P10'].must(len(dec) == 1, f'{nm}: the value is decoded once', f'{len(dec)} times', st)

def val_source(I, st, d):
    """Content a value was made from: decode(content), From::from(slice), Borrow::borrow(slice), or a slice / vector itself."""
    if isinstance(d, Slice): return content(I, st, d)
    if isinstance(d, (Seq,)): return I.seq_extract(st, d, ZERO, d.len)
    if isinstance(d, BufV): return I.seq_extract(st, d.seq, ZERO, d.seq.len)
    k = None
    if isinstance(d, Opq): k = d.key
    elif isinstance(d, Ptr): k = d.cell
    return find_segs(k)
def find_segs(k, depth=0):
    """The content inside the key of a derived value."""
    if depth > 8 or not isinstance(k, tuple): return None
    if segs_like(k): return k
    for x in k:
        r = find_segs(x, depth + 1)
        if r is not None: return r
    return None
