"""Borrowed replies (P29): the signatures of all public functions, and programs that must not compile."""
import json, os, subprocess
import extract
from spec import *

# ------------------------------------------------------------------ signatures
def signatures(S, rep):
    P = S.P
    n = 0
    for r in S.roots:
        if r['unsafe'] or not (r['reachable'] or r['trait']): continue
        nm = short(r['path'])
        rep.roots.add(r['path'])
        outs = r['out']['regions']
        bus_args = [i for i in r['in'] if has_bus(P, S, i['ty'])]
        for o in outs:
            n += 1
            if "'static" in o:
                rep.must(not r['in'] or not any(i['ref'] or i['regions'] for i in r['in']), f'{nm}: the result does not claim to live forever', r['sig'])
                continue
            users = [i for i in r['in'] if i['ref'] == o or o in i['regions']]
            rep.must(users, f'{nm}: every lifetime of the result comes from an argument', r['sig'])
            # Data of the bus is only borrowed for as long as the argument itself is.
            outer = [i for i in bus_args if i['ref'] is not None and i['ref'] != o and o in i['regions']]
            other = [i for i in users if i not in outer]
            rep.must(not outer or other, f'{nm}: the result borrows the bus for as long as it lives', r['sig'])
        if any(i['ref'] for i in bus_args):
            raw = raw_pointers(P, r['out']['ty'])
            rep.must(not raw, f'{nm}: the result carries no untracked pointer into the bus', str(raw)[:200])
            if not outs:
                # a result without a lifetime owns its data
                n += 1
                rep.must(not holds_ref(P, r['out']['ty']), f'{nm}: a result without a lifetime owns its data', r['sig'])
    rep.must(n > 20, 'public functions that return borrowed data exist', str(n))

def has_bus(P, S, tid, seen=frozenset()):
    if tid in seen: return False
    t = P.types[tid]; k = t.get('k')
    seen = seen | {tid}
    if k in ('ref', 'ptr', 'slice', 'array'): return has_bus(P, S, t['ty'], seen)
    if k == 'tuple': return any(has_bus(P, S, x, seen) for x in t['tys'])
    if k == 'adt' and t.get('local'):
        return t['path'] == S.L.path or any(has_bus(P, S, f['ty'], seen) for v in t['variants'] for f in v['fields'])
    return False

def raw_pointers(P, tid, seen=frozenset(), depth=0):
    """Raw pointer fields of local structs without a lifetime parameter."""
    if tid in seen or depth > 12: return []
    t = P.types[tid]; k = t.get('k')
    seen = seen | {tid}
    if k == 'ptr': return [P.canon(tid)]
    if k == 'tuple': return [y for x in t['tys'] for y in raw_pointers(P, x, seen, depth + 1)]
    if k == 'adt':
        if t['path'].endswith('NonNull'): return [t['name']]
        if t.get('local'):
            if "'" in (t.get('name') or '').split('::')[-1]: return []
            return [y for v in t['variants'] for f in v['fields'] for y in raw_pointers(P, f['ty'], seen, depth + 1)]
        if t['path'].split('::')[-1] in ('Option', 'Result'):
            return [y for x in t.get('args', ()) if isinstance(x, int) for y in raw_pointers(P, x, seen, depth + 1)]
    return []

def holds_ref(P, tid, seen=frozenset()):
    if tid in seen: return False
    t = P.types[tid]; k = t.get('k')
    seen = seen | {tid}
    if k == 'ref': return P.types[t['ty']].get('k') != 'str'
    if k == 'tuple': return any(holds_ref(P, x, seen) for x in t['tys'])
    if k == 'adt' and t['path'].split('::')[-1] in ('Option', 'Result'):
        return any(holds_ref(P, x, seen) for x in t.get('args', ()) if isinstance(x, int))
    return False

# ------------------------------------------------------------------ programs
# name -> (kind of owner, statements that produce `r`, is the owner only shared?)
CASES = {
    'read_status_response': ('c', 'let r = c.read_status_response(0).ok().unwrap();'),
    'read_status_response_timeout': ('c', 'let r = c.read_status_response_timeout(T).ok().unwrap();'),
    'transfer_single': ('c', 'let r = c.transfer_single(1, 1, 0, 0, |_| Ok(())).ok().unwrap();'),
    'status_parameters': ('c', 'let p = c.read_status_response(0).ok().unwrap(); let r = p.parameters();'),
    'response_of_status': ('c', 'let r = Response::<&[u8]>::from(c.read_status_response(0).ok().unwrap());'),
    'response_data': ('c', 'let r = Response::<&[u8]>::from(c.read_status_response(0).ok().unwrap()).data;'),
    'scan': ('c', 'let r = c.scan().ok().unwrap();'),
    'sync_read': ('c', 'let r = c.sync_read::<u8>(&[1, 2], 0).ok().unwrap();'),
    'sync_read_bytes': ('c', 'let r = c.sync_read_bytes::<Own>(&[1, 2], 0, 1).ok().unwrap();'),
    'sync_read_bytes_borrow': ('c', 'let r = c.sync_read_bytes_borrow::<View>(&[1, 2], 0, 1).ok().unwrap();'),
    'bulk_read_bytes': ('c', 'let r = c.bulk_read_bytes::<Own>(BULK).ok().unwrap();'),
    'bulk_read_bytes_borrow': ('c', 'let r = c.bulk_read_bytes_borrow::<View>(BULK).ok().unwrap();'),
    'sync_read_next': ('c', 'let mut it = c.sync_read_bytes_borrow::<View>(&[1, 2], 0, 1).ok().unwrap(); let r = it.read_next_borrow().unwrap().ok().unwrap();'),
    'bulk_read_next': ('c', 'let mut it = c.bulk_read_bytes_borrow::<View>(BULK).ok().unwrap(); let r = it.read_next_borrow().unwrap().ok().unwrap();'),
    'device_read': ('d', 'let r = d.read(T).ok().unwrap();'),
    'device_parameters': ('d', 'let r = match d.read(T).ok().unwrap().instruction { Instructions::Write { parameters, .. } => parameters, _ => panic!() };'),
    'device_raw': ('d', 'let r = d.read_raw_instruction_timeout(T).ok().unwrap();'),
    'device_raw_parameters': ('d', 'let p = d.read_raw_instruction_timeout(T).ok().unwrap(); let r = p.parameters();'),
    'device_converted': ('d', 'let r = Instruction::<&[u8]>::try_from(d.read_raw_instruction_timeout(T).ok().unwrap()).ok().unwrap();'),
    'client_port': ('c', 'let r = c.serial_port();'),
    'device_port': ('d', 'let r = d.serial_port();'),
}
# items of one iterator held across the next item
ITEMS = {
    'sync_item': ('c', 'let mut it = c.sync_read_bytes_borrow::<View>(&[1, 2], 0, 1).ok().unwrap();', 'it.read_next_borrow().unwrap().ok().unwrap()'),
    'sync_item_data': ('c', 'let mut it = c.sync_read_bytes_borrow::<View>(&[1, 2], 0, 1).ok().unwrap();', 'it.read_next_borrow().unwrap().ok().unwrap().data'),
    'bulk_item': ('c', 'let mut it = c.bulk_read_bytes_borrow::<View>(BULK).ok().unwrap();', 'it.read_next_borrow().unwrap().ok().unwrap()'),
    'bulk_item_data': ('c', 'let mut it = c.bulk_read_bytes_borrow::<View>(BULK).ok().unwrap();', 'it.read_next_borrow().unwrap().ok().unwrap().data'),
}
OWNER = {'c': 'dynamixel2::Client<P, B>', 'd': 'dynamixel2::Device<P, B>'}
OPS = {'c': ['let _ = c.reboot(1);', 'let _ = c.read_status_response(0);', 'let _ = c.set_baud_rate(9600);', 'let _ = c.write_instruction(1, 1, 0, |_| Ok(()));'],
       'd': ['let _ = d.read(T);', 'let _ = d.write_status_ok(1);', 'let _ = d.set_baud_rate(9600);', 'let _ = d.read_raw_instruction_timeout(T);']}
ALLOWED = {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0515', 'E0716', 'E0713', 'E0521'}
HEAD = '''#![allow(unused, dropping_references, dropping_copy_types, unused_must_use)]
use dynamixel2::{SerialPort, Response};
use dynamixel2::instructions::BulkReadData;
use dynamixel2::{Instruction, Instructions};
use core::time::Duration;
const T: Duration = Duration::from_millis(1);
static BULK: &[BulkReadData] = &[];
pub struct Own;
impl From<&[u8]> for Own { fn from(_: &[u8]) -> Self { Own } }
pub struct View;
impl core::borrow::Borrow<View> for [u8] { fn borrow(&self) -> &View { &View } }
fn keep<X>(_: X) {}
'''
BOUND = '<P: SerialPort, B: AsRef<[u8]> + AsMut<[u8]>>'

def programs():
    """(name, body, twin) of functions; the body must be rejected by the borrow checker and the twin accepted."""
    out = []
    for n, (o, s) in CASES.items():
        ty = OWNER[o]
        shared = n.endswith('_port')
        def fn(suffix, arg, body): return f'pub fn {n}_{suffix}{BOUND}({arg}) {{ {body} }}'
        for i, op in enumerate(OPS[o]):
            out.append((f'{n}_op{i}', fn(f'op{i}', f'{o}: &mut {ty}', f'{s} {op} keep(r);'), fn(f'op{i}', f'{o}: &mut {ty}', f'{{ {s} keep(r); }} {op}')))
        if not shared:
            out.append((f'{n}_share', fn('share', f'{o}: &mut {ty}', f'{s} let q = {o}.serial_port(); keep(r); keep(q);'),
                        fn('share', f'{o}: &mut {ty}', f'{{ {s} keep(r); }} let q = {o}.serial_port(); keep(q);')))
        out.append((f'{n}_gone', fn('gone', f'mut {o}: {ty}', f'{s} let q = {o}.into_serial_port(); keep(r); keep(q);'),
                    fn('gone', f'mut {o}: {ty}', f'{{ {s} keep(r); }} let q = {o}.into_serial_port(); keep(q);')))
        if ' it = ' not in s and ' p = ' not in s:
            out.append((f'{n}_end', fn('end', f'make: fn() -> {ty}', f'let x = {{ let mut {o} = make(); {s} r }}; keep(x);'),
                        fn('end', f'make: fn() -> {ty}', f'let mut {o} = make(); let x = {{ {s} r }}; keep(x);')))
    for n, (o, s, e) in ITEMS.items():
        ty = OWNER[o]
        out.append((n, f'pub fn {n}{BOUND}({o}: &mut {ty}) {{ {s} let a = {e}; let b = {e}; keep(a); keep(b); }}',
                    f'pub fn {n}{BOUND}({o}: &mut {ty}) {{ {s} {{ let a = {e}; keep(a); }} let b = {e}; keep(b); }}'))
        out.append((n + '_drop', f'pub fn {n}_drop{BOUND}({o}: &mut {ty}) {{ {s} let a = {e}; drop(it); keep(a); }}',
                    f'pub fn {n}_drop{BOUND}({o}: &mut {ty}) {{ {s} {{ let a = {e}; keep(a); }} drop(it); }}'))
    return out

def diagnostics(name, lines):
    """Compiles the functions (one per line) and returns {line: set of error codes} and other errors."""
    src = HEAD + '\n'.join(lines) + '\n'
    first = HEAD.count('\n') + 1
    with open(os.path.join(extract.WORK, 'lock-' + name), 'w') as lk:
        import fcntl
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = extract.witness_dir(name, src)
        env = dict(os.environ); env['CARGO_TERM_COLOR'] = 'never'
        env.pop('RUSTFLAGS', None)
        target = os.path.join(d, 'target')
        extract.shutil.rmtree(target, ignore_errors=True)
        r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--manifest-path', os.path.join(d, 'Cargo.toml'), '--target-dir', target],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d)
        extract.shutil.rmtree(target, ignore_errors=True)
    got = {}; other = []; seen = False
    for l in r.stdout.split('\n'):
        if not l.startswith('{'): continue
        m = json.loads(l)
        if m.get('reason') != 'compiler-message' or m['target']['name'] != name:
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error': other.append(m['message']['message'])
            continue
        seen = True
        m = m['message']
        if m['level'] != 'error': continue
        code = (m.get('code') or {}).get('code')
        ls = {s['line_start'] - first for s in m['spans'] if s['is_primary']}
        if code is None and not ls: continue      # "aborting due to"
        if not ls: other.append(m['message'])
        for i in ls: got.setdefault(i, set()).add(code or m['message'])
    if r.returncode != 0 and not got and not other: other.append(r.stderr[-600:])
    return got, other

def p29(S, t, prop):
    rep = Rep()
    if t == 'signatures':
        signatures(S, rep)
        return rep
    ps = programs()
    good, other = diagnostics('twins', [p[2] for p in ps])
    rep.must(not other, 'the programs that use the borrowed data correctly compile', str(other)[:400])
    for i, (n, _, _) in enumerate(ps):
        rep.must(i not in good and not other, f'{n}: the correct program compiles', str(good.get(i)))
    bad, other = diagnostics('witnesses', [p[1] for p in ps])
    rep.must(not other, 'the programs that misuse the borrowed data are only rejected by the borrow checker', str(other)[:400])
    for i, (n, _, _) in enumerate(ps):
        codes = bad.get(i, set())
        rep.must(codes, f'{n}: the program that keeps the borrowed data does not compile', 'it compiles')
        if codes: rep.must(codes <= ALLOWED, f'{n}: the program is rejected by the borrow checker', str(codes))
    rep.callsites |= {p[0] for p in ps}
    rep.notes.append(f'{len(ps)} pairs of programs')
    return rep

TASKS = {'P29': (lambda S: ['signatures', 'programs'], p29)}
