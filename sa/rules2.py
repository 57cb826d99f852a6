"""Rules for status reads, packet accessors and the device side (P04, P11, P12, P13, P14, P15, P19, P24)."""
from spec import *
from session import *
import client as cl
from client import single_wait, reply, bus_fields, is_recverr, val_source, sufficient

PR = ('P04', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P19', 'P24')

def find(S, pred): 
    c = [r for r in S.roots if pred(r)]
    return c[0] if c else None
def selfname(r):
    m = re.match(r'&?(?:\'\w+ )?(?:mut )?(?:[\w]+::)*(\w+)', r['self_ty'])
    return m.group(1) if m else ''
def arg_tids(S, r):
    b = S.P.bodies[r['body']]
    return [b['locals'][i + 1] for i in range(b['nargs'])]
def run_body(S, I, st, r, args):
    return [(s, k, v) for s, k, v in I.run_body(st.copy(), S.P.bodies[r['body']], args, None, None) if not s.F.infeasible()]

# ------------------------------------------------------------------ status replies on their own
def status_read(S, name):
    reps = {p: Rep() for p in PR}
    r = find(S, lambda r: cl.is_client(r) and r['name'] == name)
    nm = f'Client::{name}'
    if r is None:
        for p in ('P14', 'P15', 'P19', 'P24'): reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(r)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I; a = R.args
    fs = bus_fields(S, I, R.entry.copy(), a)
    baud = fs[S.L.baud] if fs is not None else None
    seen = set()
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        evs = list(events(I, st.ev))
        aw = [e for e, s in evs if e[0] == 'await']
        reps['P16'].must(len(aw) == 1 and not any(s for e, s in evs if e[0] == 'await'), f'{nm}: awaits exactly one message', f'{len(aw)} waits', st)
        for p in ('P16', 'P14'): reps[p].must(not any(e[0] in ('read', 'write', 'discard', 'baud_set') for e, s in evs), f'{nm}: only waits', str([e[0] for e, s in evs]), st)
        if len(aw) != 1: continue
        if name == 'read_status_response': single_wait(S, R, st, reps, nm, aw[0], evs, baud, a[1], 11)
        else: exact_deadline(S, R, st, reps, nm, aw, evs, a[1])
        reply(S, R, st, v, res, reps, nm, aw[0], None, None, 'raw', False)
        seen.add('ok' if res.ok else res.chain[0] if res.chain else '?')
        if res.ok is False and isinstance(res.leaf, Agg): seen.add(res.chain[-1])
    for x in ('ok', 'MotorError', 'InvalidInstruction'): reps['P14' if x != 'MotorError' else 'P15'].must(x in seen, f'{nm}: can end in {x}', str(sorted(seen)))
    return reps

def exact_deadline(S, R, st, reps, nm, aws, evs, timeout):
    """One deadline, made from exactly the given timeout, used for every wait."""
    I = R.I
    dls = [e for e, s in evs if e[0] == 'deadline']
    star = any(s for e, s in evs if e[0] == 'deadline')
    t = timeout.nanos if isinstance(timeout, Dur) else None
    reps['P19'].must(len(dls) == 1 and not star, f'{nm}: one deadline for the whole wait', f'{len(dls)} deadlines', st)
    if len(dls) != 1 or t is None: return
    reps['P19'].must(lambda: st.F.prove_eq(dls[0][1], t), f'{nm}: the deadline is made from the given timeout', str(dls[0][1]), st)
    for aw in aws:
        dk = aw[1]
        good = isinstance(dk, tuple) and dk[0] == 'opq' and isinstance(dk[1], tuple) and dk[1][0] == 'deadline' and same_key(I, st, dk[1][1], dls[0][1])
        reps['P19'].must(good, f'{nm}: every wait uses this deadline', str(dk)[:100], st)

# ------------------------------------------------------------------ accessors
def accessors(S):
    reps = {p: Rep() for p in PR}
    table = []
    for T in ('Packet', 'StatusPacket', 'InstructionPacket'):
        table += [(T, 'packet_id', 'P04', lambda pk, I, st, v: st.F.prove_eq(v, pk.id)), (T, 'instruction_id', 'P04', lambda pk, I, st, v: st.F.prove_eq(v, pk.instr))]
    def params(off):
        def f(pk, I, st, v):
            from models import subslice
            return same_seq(I, st, content(I, st, v), content(I, st, subslice(st, pk.sl, C(off), pk.len - off)))
        return f
    def low7(I, e): return e - I_div(e, 128) * 128
    def I_div(e, n): return mk_div(e, n)
    table += [('StatusPacket', 'parameters', 'P04', params(9)), ('InstructionPacket', 'parameters', 'P04', params(8)),
              ('StatusPacket', 'error', 'P04', lambda pk, I, st, v: st.F.prove_eq(v, pk.err)),
              ('StatusPacket', 'error_number', 'P15', lambda pk, I, st, v: st.F.prove_eq(v, low7(I, pk.err))),
              ('StatusPacket', 'alert', 'P15', lambda pk, I, st, v: iff(st, v, ge(pk.err - 128))),
              ('Packet', 'as_status', 'P04', kind(True)), ('Packet', 'as_instruction', 'P04', kind(False))]
    for T, name, prop, rule in table:
        nm = f'{T}::{name}'
        r = find(S, lambda r: selfname(r) == T and r['name'] == name and not r['trait'])
        rep = reps[prop]
        if r is None: rep.must(False, f'{nm} exists', 'function not found'); continue
        R = S.run(r); rep.saw(R)
        if R.error or R.I.stuck: continue
        I = R.I
        n = 0
        for st, k, v in R.outs:
            if k != 'ret':
                rep.must(False, f'{nm}: does not panic', '', st); continue
            n += 1
            pv = R.args[0]
            if isinstance(pv, Ptr): pv = I.read(st, (pv.cell, pv.path))
            pk = PktOf(I, pv)
            rep.must(lambda: every(I, st, lambda s: rule(pk, I, s, v)), f'{nm}: is the field of the message', str(v)[:160], st)
        rep.some(R, n > 0, f'{nm}: returns', '')
    # motor errors
    for name, rule in (('error_number', lambda raw, I, st, v: st.F.prove_eq(v, low7(I, raw))), ('alert', lambda raw, I, st, v: iff(st, v, ge(raw - 128)))):
        r = find(S, lambda r: selfname(r) == 'MotorError' and r['name'] == name and not r['trait'])
        rep = reps['P15']; nm = f'MotorError::{name}'
        if r is None: rep.must(False, f'{nm} exists', 'function not found'); continue
        R = S.run(r); rep.saw(R)
        I = R.I
        for st, k, v in R.outs:
            if k != 'ret': continue
            def f(s):
                x = I.read(s, (R.args[0].cell, R.args[0].path))
                if isinstance(x, Opq): x = I.expand(s, x)
                return rule(field(I, x, 'raw'), I, s, v)
            rep.must(lambda: every(I, st, f), f'{nm}: is computed from the raw error', str(v)[:160], st)
    return reps
def kind(status):
    def f(pk, I, st, v):
        some = v.variant == 1
        c = eq(pk.instr - 0x55) if status else ne(pk.instr - 0x55)
        if st.F.decide(c) is not some: return False
        if not some: return True
        sl = pkt_slice(I, v.fields[0])
        return same_seq(I, st, content(I, st, sl), content(I, st, pk.sl))
    return f
class PktOf(Pkt):
    def __init__(self, I, v):
        self.I = I; self.v = v; self.sl = pkt_slice(I, v); self.len = self.sl.len

# ------------------------------------------------------------------ decoding instructions
def w(pk, i): return pk.b(8 + i) + pk.b(9 + i) * 256
DECODE = {   # code -> (variant, (kind, count), fields: name -> ('w', offset) | ('tail', offset))
    0x01: ('Ping', None, {}), 0x02: ('Read', ('Exact', 4), {'address': ('w', 0), 'length': ('w', 2)}),
    0x03: ('Write', ('Min', 2), {'address': ('w', 0), 'parameters': ('tail', 2)}), 0x04: ('RegWrite', ('Min', 2), {'address': ('w', 0), 'parameters': ('tail', 2)}),
    0x05: ('Action', None, {}), 0x06: ('FactoryReset', ('Exact', 1), {0: 'reset'}), 0x08: ('Reboot', None, {}), 0x10: ('Clear', ('Min', 1), {0: 'clear'}),
    0x82: ('SyncRead', ('Min', 4), {'address': ('w', 0), 'length': ('w', 2), 'ids': ('tail', 4)}),
    0x83: ('SyncWrite', ('Min', 4), {'address': ('w', 0), 'length': ('w', 2), 'parameters': ('tail', 4)}),
    0x92: ('BulkRead', None, {'parameters': ('tail', 0)}), 0x93: ('BulkWrite', None, {'parameters': ('tail', 0)}),
}
RESET = {0xFF: 'All', 1: 'ExceptId', 2: 'ExceptIdBaudRate'}
CLEARS = {1: 'MultiTurns', 2: 'Errors'}

def case(st, x, codes):
    """Index of the code x is equal to (None: none of them); makes the case distinction if it is open."""
    F = st.F
    open_ = []
    for c in codes:
        d = F.decide(eq(x - c))
        if d is True: return c
        if d is None: open_.append(c)
    if not open_: return None
    raise Split([eq(x - c) for c in open_] + [_conj([ne(x - c) for c in open_])])
def _conj(cs):
    r = cs[0]
    for c in cs[1:]: r = c_and(r, c)
    return r

def decoded(S, I, st, res, pk, reps, nm, why):
    """Does the result follow from the packet according to the table? (inside every())"""
    from models import subslice
    F = st.F
    np = pk.len - 8
    code = case(st, pk.instr, list(DECODE))
    name, cnt, fields = DECODE.get(code, ('Unknown', None, {'instruction': 'instr', 'parameters': ('tail', 0)}))
    fits = None
    if cnt is not None:
        cond = eq(np - cnt[1]) if cnt[0] == 'Exact' else ge(np - cnt[1])
        fits = F.decide(cond)
        if fits is None: raise Split([cond, c_not(cond)])
    def fail(prop, m):
        why.append((prop, m)); return False
    if res.ok is False:
        if res.chain[-1:] != ['InvalidParameterCount'] and not (isinstance(res.leaf, Agg) and vname(I, res.leaf)[0] == 'InvalidParameterCount'):
            return fail('P12', f'{name}: error {res.chain}')
        if fits is not False: return fail('P12', f'{name} with a fitting number of parameters is rejected')
        lf = res.leaf
        e = field(I, lf, 'expected')
        if not F.prove_eq(field(I, lf, 'actual'), np): return fail('P12', f'{name}: actual count in the error')
        if not (isinstance(e, Agg) and vname(I, e)[1] == cnt[0] and F.prove_eq(e.fields[0], C(cnt[1]))): return fail('P12', f'{name}: expected count in the error')
        return True
    if fits is False: return fail('P12', f'{name} with another number of parameters is accepted')
    val = res.val
    if not F.prove_eq(field(I, val, 'id'), pk.id): return fail('P11', f'{name}: packet ID')
    ins = field(I, val, 'instruction')
    if isinstance(ins, Opq): return fail('P11', f'{name}: unknown variant')
    if vname(I, ins)[1] != name: return fail('P11', f'instruction {code} is decoded as {vname(I, ins)[1]}')
    for f, how in fields.items():
        x = ins.fields[0] if f == 0 else field(I, ins, f)
        if how == 'instr': good = F.prove_eq(x, pk.instr)
        elif how in ('reset', 'clear'):
            b = pk.b(8)
            tab, unk = (RESET, 'Unknown') if how == 'reset' else (CLEARS, 'Reserved')
            c = case(st, b, list(tab))
            good = vname(I, x)[1] == tab.get(c, unk) and (c is not None or F.prove_eq(x.fields[0], b))
        elif how[0] == 'w': good = F.prove_eq(x, w(pk, how[1]))
        else:
            src = val_source(I, st, x)
            good = src is not None and same_seq(I, st, src, content(I, st, subslice(st, pk.sl, C(8 + how[1]), pk.len - 8 - how[1])))
        if not good: return fail('P11', f'{name}: field {f}')
    return True

def decode_rule(S, I, st, v, pk, reps, nm):
    res = Res(I, v)
    why = []
    key = f'{nm}: the result is the protocol meaning of the received packet'
    key2 = f'{nm}: the parameter count is checked'
    try: good = every(I, st, lambda s: decoded(S, I, s, res, pk, reps, nm, why))
    except (Unsup, Split, RecursionError) as e:
        for p in ('P11', 'P12'): reps[p].und[key] = 'not decided: ' + str(e)[:160]
        return
    for p, k in (('P11', key), ('P12', key2)):
        bad = [m for q, m in why if q == p]
        reps[p].must(good or not bad, k, '; '.join(bad), st)
        for m in bad[:2]: reps[p].viol.setdefault(f'{nm}: {m}', m) if k in reps[p].viol else None

def as_type(I, tid, pk):
    """A value of a packet type around the data of a given packet."""
    t = I.P.types[tid]
    if t.get('k') == 'ref' and I.P.types[t['ty']].get('k') == 'slice': return pk.sl
    if t.get('k') == 'adt' and t['kind'] == 'struct':
        return Agg(t['name'], 0, tuple(as_type(I, f['ty'], pk) for f in t['variants'][0]['fields']))
    raise Unsup('layout of packet types')

def conversions(S):
    """The two conversions from a packet to an instruction: (borrowed, owned)."""
    b = o = None
    for r in S.roots:
        if r['name'] != 'try_from' or selfname(r) != 'Instruction' or 'TryFrom' not in r['trait']: continue
        if 'Vec' in r['self_ty']: o = r
        else: b = r
    return b, o

def conversion(S, owned):
    reps = {p: Rep() for p in PR}
    b, o = conversions(S)
    r = o if owned else b
    nm = 'Instruction<Vec<u8>>::try_from' if owned else 'Instruction<&[u8]>::try_from'
    if r is None:
        for p in ('P11', 'P12', 'P13'): reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(r)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I
    pk = PktOf(I, R.args[0])
    for st, k, v in R.outs:
        if k != 'ret':
            for p in ('P11', 'P12'): reps[p].must(False, f'{nm}: does not panic', '', st)
            continue
        decode_rule(S, I, st, v, pk, reps, nm)
        if owned and b is not None: agree(S, I, st, v, pk, b, reps['P13'], nm)
    return reps

def agree(S, I, st, v, pk, conv, rep, nm):
    """The result v agrees with the result of the borrowed conversion of the same packet."""
    arg = as_type(I, arg_tids(S, conv)[0], pk)
    for s, k, v2 in run_body(S, I, st, conv, [arg]):
        if k != 'ret': continue
        rep.must(lambda: every(I, s, lambda q: same_result(I, q, Res(I, v), Res(I, v2))), f'{nm}: agrees with the borrowed conversion of the same packet', f'{str(v)[-120:]} / {str(v2)[-120:]}', s)

def same_result(I, st, x, y):
    if x.ok != y.ok: return False
    if x.ok is False:
        # the same innermost error
        if isinstance(x.leaf, Agg) != isinstance(y.leaf, Agg): return False
        return same_data(I, st, x.leaf, y.leaf)
    return same_data(I, st, x.val, y.val)
def same_data(I, st, x, y):
    if isinstance(x, Agg) and isinstance(y, Agg):
        tx, ty = adt(I, x), adt(I, y)
        if (tx is None) != (ty is None) or (tx is not None and tx['path'] != ty['path']):
            a, b = val_source(I, st, x), val_source(I, st, y)
            return a is not None and b is not None and same_seq(I, st, a, b)
        return x.variant == y.variant and len(x.fields) == len(y.fields) and all(same_data(I, st, p, q) for p, q in zip(x.fields, y.fields))
    if isinstance(x, Poly) and isinstance(y, Poly): return st.F.prove_eq(x, y)
    a, b = val_source(I, st, x), val_source(I, st, y)
    if a is not None and b is not None: return same_seq(I, st, a, b)
    return same_val(I, st, x, y)

# ------------------------------------------------------------------ reading instructions
def device_read(S, name):
    reps = {p: Rep() for p in PR}
    r = find(S, lambda r: cl.is_device(r) and r['name'] == name)
    nm = f'Device::{name}'
    if r is None:
        for p in ('P11', 'P12', 'P13', 'P19', 'P24'): reps[p].must(False, f'{nm} exists', 'function not found')
        return reps
    R = S.run(r)
    for p in reps.values(): p.saw(R)
    if R.error or R.I.stuck: return reps
    I = R.I; a = R.args
    b, o = conversions(S)
    n_ok = 0
    for l in I.loopinfo:
        n0 = len(l['h'].ev)
        for st in l['backs']:
            aw = [e for e, s in events(I, st.ev[n0:]) if e[0] == 'await']
            if not aw: continue
            reps['P11'].must(len(aw) == 1 and aw[0][2] == 'ok', f'{nm}: errors end the wait', '', st)
            if len(aw) == 1 and aw[0][2] == 'ok':
                reps['P11'].must(lambda: st.F.proves(eq(Pkt(I, aw[0][3]).instr - 0x55)), f'{nm}: only status packets are skipped', '', st)
    for st, k, v in R.outs:
        if k != 'ret': continue
        res = Res(I, v)
        evs = list(events(I, st.ev))
        aws = [e for e, s in evs if e[0] == 'await']
        last = [e for e in st.ev if e[0] != 'star' or list(events(I, (e,)))]
        reps['P11'].must(not any(e[0] in ('read', 'write', 'discard', 'baud_set') for e, s in evs), f'{nm}: only waits', '', st)
        exact_deadline(S, R, st, reps, nm, aws, evs, a[1])
        top = [e for e in st.ev if e[0] == 'await']
        if not top:
            reps['P11'].must(False, f'{nm}: returns what it waited for', 'no wait', st); continue
        aw = top[-1]
        for e in top[:-1]:
            reps['P11'].must(lambda: e[2] == 'ok' and st.F.proves(eq(Pkt(I, e[3]).instr - 0x55)), f'{nm}: only status packets are skipped', '', st)
        if aw[2] == 'err':
            reps['P24'].must(res.ok is False and is_recverr(I, res, aw[3]), f'{nm}: a receive error is returned unchanged', str(v)[-160:], st)
            reps['P13'].must(res.ok is False and is_recverr(I, res, aw[3]), f'{nm}: a receive error is returned unchanged', str(v)[-160:], st)
            continue
        pk = Pkt(I, aw[3])
        reps['P11'].must(lambda: st.F.decide(eq(pk.instr - 0x55)) is False, f'{nm}: status packets are not instructions', '', st)
        if name.startswith('read_raw'):
            n_ok += 1
            def whole(s): return res.ok is True and same_seq(I, s, content(I, s, pkt_slice(I, res.val)), content(I, s, pk.sl))
            reps['P11'].must(lambda: every(I, st, whole), f'{nm}: returns exactly the received packet', str(v)[:160], st)
        else:
            n_ok += 1
            decode_rule(S, I, st, v, pk, reps, nm)
            if b is not None: agree(S, I, st, v, pk, b, reps['P13'], nm)
    reps['P11'].some(R, n_ok > 0, f'{nm}: returns instructions', '')
    return reps

# ------------------------------------------------------------------ registry
def tasks(prop):
    out = []
    if prop in ('P14', 'P15', 'P16', 'P19', 'P24'): out += [('status', 'read_status_response'), ('status', 'read_status_response_timeout')]
    if prop in ('P04', 'P15'): out += [('acc', None)]
    if prop in ('P11', 'P12', 'P13'): out += [('conv', False), ('conv', True)]
    if prop in ('P11', 'P12', 'P13', 'P19', 'P24'): out += [('dev', n) for n in ('read_raw_instruction_timeout', 'read', 'read_owned')]
    return out
def run_task(S, t):
    k, x = t
    try: return {'status': status_read, 'dev': device_read, 'conv': conversion}[k](S, x) if k != 'acc' else accessors(S)
    except (Unsup, Split, RecursionError) as e:
        r = {p: Rep() for p in PR}
        for p in r: r[p].und[f'{k} {x}: analysis incomplete'] = str(e)[:160]
        return r
