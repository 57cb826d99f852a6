"""The command line tool (P26): every run of main, partitioned by subcommand and outcome of every operation, against the table of subcommands."""
import extract
from spec import *
import models, interp
from models import ret, some, none, ok, err, vkey, deref, as_slice, content, decide_fork, opq_of, field_ty, PURE_PREFIX
from values import Prog

# subcommand -> (method of the client, type argument)
TABLE = {
    'Reboot': ('reboot', None), 'Read8': ('read', 'u8'), 'Read16': ('read', 'u16'), 'Read32': ('read', 'u32'), 'Read': ('read_bytes', None),
    'Write8': ('write', 'u8'), 'Write16': ('write', 'u16'), 'Write32': ('write', 'u32'), 'Write': ('write_bytes', None),
}
READS = ('Read8', 'Read16', 'Read32', 'Read')
OPAQUE = ('env_logger::', '<env_logger::', 'clap', '<clap', 'std::io::stdio::', '<std::io::stdio', 'log::', '<log::', 'std::time::', '<std::time', 'core::time::', 'std::env::')
PATHS = ('deref', 'as_path', 'as_ref', 'borrow', 'as_os_str', 'clone', 'to_owned', 'to_path_buf', 'into', 'from', 'new', 'as_mut')

TEXTS = PATHS + ('as_str', 'to_string', 'to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase', 'trim', 'trim_start', 'trim_end')

def pathkey(I, st, v):
    v = deref(I, st, v)
    if isinstance(v, Opq):
        if isinstance(v.key, tuple) and v.key and v.key[0] == 'path': return v.key[1]
        return st.F.nkey(v.key)
    if isinstance(v, StrV): return ('str', v.key)
    if isinstance(v, Agg) and len(v.fields) == 1: return pathkey(I, st, v.fields[0])
    raise Unsup('key of a path')

def text_eq(I, st, x, y):
    """Comparison of a text in lower (upper) case with a literal: the text is the literal but for the case."""
    k = [pathkey(I, st, x), pathkey(I, st, y)]
    for i in (0, 1):
        lit, low = k[i], k[1 - i]
        if low[0] in ('to_ascii_lowercase', 'to_ascii_uppercase') and lit[0] == 'str' and isinstance(lit[1], str):
            if lit[1] != (lit[1].lower() if low[0].endswith('lowercase') else lit[1].upper()) or not lit[1].isascii(): return False
            k = sorted((low[1], ('str', lit[1].lower())), key=repr)
            return decide_fork(I, st, ('eq_ignore_ascii_case', k[0], k[1]))
    return None

def path_ref(I, st, ty, key):
    """A reference to (or value of) a path."""
    t = I.P.types[ty]
    if t.get('k') == 'ref':
        cid = ('pathref', key, ty)
        I.ext[cid] = ('const', Opq(t['ty'], ('path', key)))
        return Ptr(cid, ())
    return Opq(ty, ('path', key))

def is_path(I, x):
    t = I.P.types[x]
    while t.get('k') in ('ref', 'ptr'): t = I.P.types[t['ty']]
    return t.get('path', '').startswith(('std::path::Path', 'std::ffi::os_str', 'core::path')) or t.get('path', '').endswith(('::PathBuf', '::OsString'))

def outcome(I, st, ty, name, args, targs):
    """An operation that can fail: both outcomes."""
    k = st.n; st.n += 1
    good = decide_fork(I, st, ('outcome', name, k))
    st.ev = st.ev + (('op', name, args, targs, good, k),)
    t = field_ty(I, ty, 0 if good else 1)
    return ret(st, ok(I, ty, opq_of(I, st, t, ('res', name, k))) if good else err(I, ty, opq_of(I, st, t, ('err', name, k))))

def is_result(I, ty): return I.P.types[ty].get('path', '') == 'core::result::Result'

def hook(I, st, fr, c, a, ty, span, aty):
    path, orig = c['path'], c['orig']
    nm = path.rsplit('::', 1)[1]
    F = st.F
    targs = tuple(I.P.canon(x) for x in c.get('args') or () if isinstance(x, int))
    lib = path.startswith(('dynamixel2::', '<dynamixel2::')) and not c.get('local')
    if path == 'std::process::exit':
        st.ev = st.ev + (('exit', F.norm(a[0])),)
        return [(st, 'exit', None)]
    if path == 'std::process::abort':
        st.ev = st.ev + (('exit', C(134)),)
        return [(st, 'exit', None)]
    if orig == 'clap_builder::derive::Parser::parse' or (nm in ('parse', 'parse_from') and 'clap' in orig):
        st.ev = st.ev + (('parse',),)
        return ret(st, Opq(ty, ('options',)))
    if nm in ('try_parse',) and 'clap' in orig:
        return outcome(I, st, ty, 'parse', (), ())
    if orig == 'clap_complete::aot::generator::generate' or (nm in ('generate',) and 'clap' in path):
        # writes the completion script into the buffer
        b = a[-1]
        while isinstance(b, Ptr) and isinstance(I.read(st, (b.cell, b.path)), Ptr): b = I.read(st, (b.cell, b.path))
        old = I.read(st, (b.cell, b.path)) if isinstance(b, Ptr) else None
        sh = deref(I, st, a[0])
        st.ev = st.ev + (('generate', vkey(I, st, sh)),)
        if isinstance(old, (Opq, BufV, Seq)):
            I.write(st, (b.cell, b.path), I.mk(old.ty, ('script', st.n))); st.n += 1
        return ret(st, UNIT)
    if lib:
        if nm == 'into_iter' or (nm in ('clone',) and 'MotorId' in path): return ret(st, a[0])
        if nm == 'next' or nm in ('scan_next', 'read_next'):
            k = st.n; st.n += 1
            if not decide_fork(I, st, ('more', k)): 
                st.ev = st.ev + (('item', k, None),)
                return ret(st, none(I, ty))
            st.ev = st.ev + (('item', k, True),)
            return ret(st, some(I, ty, opq_of(I, st, field_ty(I, ty, 1), ('item', k))))
        if is_result(I, ty):
            args = []
            for x, t in zip(a, aty):
                if is_path(I, t): args.append(('path', pathkey(I, st, x)))
                else: args.append(('val', x, I.P.canon(t)))
            return outcome(I, st, ty, nm, tuple(resolve(I, st, x) for x in args), targs)
        if I.P.types[ty].get('k') in ('int', 'bool', 'ref'): return ret(st, opq_of(I, st, ty, ('lib', path, fresh_id())))
        raise Unsup('function of the library ' + path)
    if path.startswith('std::fs::OpenOptions::'):
        if nm == 'new': return ret(st, Opq(ty, ('openopts', ())))
        q = a[0]
        while isinstance(q, Ptr) and isinstance(I.read(st, (q.cell, q.path)), Ptr): q = I.read(st, (q.cell, q.path))
        o = I.read(st, (q.cell, q.path)) if isinstance(q, Ptr) else q
        if not (isinstance(o, Opq) and isinstance(o.key, tuple) and o.key[0] == 'openopts'): raise Unsup('options of a file')
        if nm == 'open':
            on = {k for k, v in o.key[1] if v}
            ps = (('path', pathkey(I, st, a[1])),)
            # the same as File::create
            if on - {'read'} == {'write', 'create', 'truncate'}: return outcome(I, st, ty, 'create', ps, ())
            return outcome(I, st, ty, 'fs::open ' + ' '.join(sorted(on)), ps, ())
        if len(a) == 2 and isinstance(q, Ptr):
            v = I.truth(st, a[1]) if I.is_bool(a[1]) else None
            if v is None: raise Unsup('options of a file')
            I.write(st, (q.cell, q.path), Opq(o.ty, ('openopts', tuple(x for x in o.key[1] if x[0] != nm) + ((nm, v),))))
            return ret(st, a[0])
        raise Unsup('options of a file')
    if path.startswith(('std::fs::',)) and is_result(I, ty):
        ps = [('path', pathkey(I, st, x)) for x, t in zip(a, aty) if is_path(I, t)]
        if nm in ('write',):
            return outcome(I, st, ty, 'fs_write', tuple(ps) + (data_key(I, st, a[-1]),), ())
        if nm == 'create': return outcome(I, st, ty, 'create', tuple(ps), ())
        return outcome(I, st, ty, 'fs::' + nm, tuple(ps), ())
    if nm in ('write_all', 'flush', 'sync_all') and is_result(I, ty):
        dest = dest_key(I, st, a[0])
        return outcome(I, st, ty, nm, (dest,) + ((data_key(I, st, a[1]),) if nm == 'write_all' else ()), ())
    if path.startswith('alloc::vec::Vec::<T') and nm in ('with_capacity', 'new'):
        st.n += 1
        return ret(st, I.mk(ty, ('vec', st.n)))
    if path.startswith('alloc::vec::Vec::<T') and nm in ('push', 'extend_from_slice', 'reserve'):
        old = I.read(st, (a[0].cell, a[0].path))
        if nm != 'reserve':
            st.n += 1
            I.write(st, (a[0].cell, a[0].path), I.mk(old.ty, ('pushed', vkey(I, st, old), st.n)))
        return ret(st, UNIT)
    if any(is_path(I, t) for t in aty) or 'path::Path' in path:
        t = I.P.types[ty]
        if nm in ('eq', 'ne') and len(a) == 2:
            k = sorted((pathkey(I, st, a[0]), pathkey(I, st, a[1])), key=repr)
            r = k[0] == k[1] or decide_fork(I, st, ('patheq', k[0], k[1]))
            return ret(st, r if nm == 'eq' else not r)
        if nm in PATHS and is_path(I, ty): return ret(st, path_ref(I, st, ty, pathkey(I, st, a[0])))
        if nm in ('display', 'to_string_lossy', 'drop'): return ret(st, I.mk(ty, ('display', fresh_id())))
        raise Unsup('operation on paths ' + path)
    if path == 'core::str::<impl str>::parse' or (nm == 'parse' and '<impl str>' in path) or (nm == 'from_str' and not c.get('local')) or nm == 'from_str_radix':
        k = pathkey(I, st, a[0])
        t = field_ty(I, ty, 0)
        good = decide_fork(I, st, ('parse_ok', I.P.canon(t), k))
        return ret(st, ok(I, ty, opq_of(I, st, t, ('parsed', I.P.canon(t), k))) if good else err(I, ty, opq_of(I, st, field_ty(I, ty, 1), ('parse_err', k))))
    text = '<impl str>' in path or '<impl str>' in orig or any('string::String' in I.P.canon(t) for t in aty)
    if text and nm in TEXTS:
        k = pathkey(I, st, a[0])
        k = k if nm in PATHS + ('as_str', 'to_string', 'borrow') else (nm, k)
        if I.P.types[ty].get('k') == 'ref' or 'string::String' in I.P.canon(ty): return ret(st, path_ref(I, st, ty, k))
    if text and nm in ('starts_with', 'ends_with', 'contains', 'is_empty') and len(a) <= 2:
        return ret(st, decide_fork(I, st, (nm,) + tuple(pathkey(I, st, x) for x in a)))
    if nm in ('eq', 'ne') and (text or '<impl str>' in path or 'str' in path):
        r = text_eq(I, st, *a)
        if r is not None: return ret(st, r if nm == 'eq' else not r)
    if nm == 'eq_ignore_ascii_case' or ('<impl str>' in path and nm == 'eq') or ('str' in path and nm in ('eq', 'ne')):
        k = sorted((pathkey(I, st, a[0]), pathkey(I, st, a[1])), key=repr)
        r = decide_fork(I, st, (nm if nm != 'ne' else 'eq', k[0], k[1]))
        return ret(st, r if nm != 'ne' else not r)
    if I.P.types[ty].get('path', '').startswith('std::process::ExitCode') and len(a) == 1:
        return ret(st, Opq(ty, ('exitcode', F.norm(a[0]))))
    if path.startswith(PURE_PREFIX) or path.startswith(OPAQUE) or orig.startswith(OPAQUE):
        t = I.P.types[ty]
        if t.get('k') == 'never': return None
        if t.get('k') == 'tuple' and not t['tys']: return ret(st, UNIT)
        return ret(st, I.mk(ty, ('pure', fresh_id())))
    return None

def dest_key(I, st, v):
    v = deref(I, st, v)
    return ('dest', st.F.nkey(v.key)) if isinstance(v, Opq) else ('dest', v)

def data_key(I, st, v):
    try: return ('data', content(I, st, as_slice(I, st, v)))
    except (Unsup, KeyError, TypeError): return ('data', vkey(I, st, v))

def resolve(I, st, x):
    """Values behind references at the time of the call."""
    if x[0] == 'path': return x
    v, t = x[1], x[2]
    w = deref(I, st, v)
    if isinstance(w, (Slice, Seq, BufV)) or (isinstance(w, Opq) and 'Vec<' in I.P.canon(w.ty)):
        return data_key(I, st, v) + (t,)
    return ('val', w, t)

def p26_one(S_, item, prop):
    rep = Rep()
    P = Prog(extract.load('cli'))
    if item[0] == 'main': run_main(rep, P, item[1])
    else: from_str(rep, P)
    return rep

def start(P, log_on):
    I = interp.Interp(P, {'external': hook, 'texteq': text_eq}, {})
    I.log_on = log_on
    return I

def run_main(rep, P, log_on):
    rs = [r for r in P.roots if r['path'].rsplit('::', 1)[1] == 'main' and r['path'].count('::') == 1]
    if not rs: raise Missing('the function main of the command line tool')
    r = rs[0]
    I = start(P, log_on)
    I.max_steps = 3000000
    b = P.bodies[r['body']]
    class R: pass
    R = R(); R.root = r; R.I = I; R.error = None; R.outs = []; R.body = b; R.time = 0
    st = St(); R.entry = st.copy()
    try: R.outs = [o for o in I.run_body(st, b, [], None, None) if not o[0].F.infeasible()]
    except Unsup as u: R.error = str(u)
    rep.saw(R)
    ot = next((t for t in P.types if t.get('k') == 'adt' and t.get('local') and any(f['name'] == 'command' for v in t['variants'] for f in v['fields'])), None)
    if ot is None: raise Missing('the options of the command line tool')
    fields = {f['name']: i for i, f in enumerate(ot['variants'][0]['fields'])}
    ct = P.types[ot['variants'][0]['fields'][fields['command']]['ty']]
    seen = {}
    for st, kind, v in R.outs:
        cases(rep, I, st, kind, v, ot, ct, fields, seen)
    for n in [x['name'] for x in ct['variants']]:
        rep.some(R, 'ok' in seen.get(n, ()), f'{n}: succeeds on some path', str(seen.get(n)))
        rep.some(R, 'fail' in seen.get(n, ()), f'{n}: fails on some path', str(seen.get(n)))
    for n in list(TABLE) + ['Ping', 'ShellCompletion']:
        rep.must(n in {x['name'] for x in ct['variants']}, f'the subcommand {n} exists', '')

def cases(rep, I, st, kind, v, ot, ct, fields, seen, depth=0):
    """Also distinguishes what the path itself did not look at."""
    part = Rep()
    try: judge(part, I, st, kind, v, ot, ct, fields, seen)
    except Split as sp:
        if depth > 20: rep.und['main: path not understood'] = 'too many cases'; return
        for s in I.apply_split(st, sp.alts):
            if not s.F.infeasible(): cases(rep, I, s, kind, v, ot, ct, fields, seen, depth + 1)
        return
    except Unsup as u: part.und['main: path not understood'] = str(u)[:200]
    rep.add(part)

def judge(rep, I, st, kind, v, ot, ct, fields, seen):
    F = st.F
    evs = st.ev
    ops = [e for e in evs if e[0] == 'op']
    # exit status
    ex = [e for e in evs if e[0] == 'exit']
    if ex: status = ex[-1][1]
    elif kind == 'panic': status = C(101)
    elif kind == 'ret':
        status = ZERO
        if isinstance(v, Agg) and v.ty.startswith(('core::result::Result', 'std::result::Result')): status = C(v.variant)
        elif not (isinstance(v, Agg) and v.ty == 'tuple') and v != UNIT:
            status = exit_code(I, st, v)
    else: return
    o = deref_options(I, st, ot)
    if o is None:
        rep.und['main: ends before the options are parsed'] = str(evs)[:200]; return
    cmd = o[fields['command']]
    if not isinstance(cmd, Agg):
        i = st.res_variant(cmd) if hasattr(st, 'res_variant') else I.variant_of(st, cmd)
        cmd = I.expand(st, cmd, i)
    var = ct['variants'][cmd.variant]
    n = var['name']
    arg = {f['name']: x for f, x in zip(var['fields'], cmd.fields)}
    failed = [e for e in ops if not e[4]]
    mid = arg.get('motor_id')
    bc = None
    if mid is not None:
        mt = next(t for t in I.P.types if t.get('k') == 'adt' and t.get('name') == (mid.ty if isinstance(mid, Agg) else I.P.types[mid.ty]['name']))
        if not isinstance(mid, Agg):
            # main did not look at the motor ID: any
            mid = I.expand(st, mid, I.variant_of(st, mid))
        bc = mt['variants'][mid.variant]['name'] == 'Broadcast'
    refused = n in READS and bc
    zero = F.prove_eq(status, ZERO)
    nonzero = F.decide(eq(status)) is False
    if failed or refused or kind == 'panic':
        what = 'the broadcast ID' if refused and not failed else f'a failing {failed[0][1]}' if failed else 'a panic'
        rep.must(nonzero, f'{n}: {what} makes the tool exit with an error', f'status {status}; {[e[:2] for e in ops]}', st)
        rep.must(kind != 'panic', f'{n}: does not panic', str([e[:2] for e in ops]), st)
        seen.setdefault(n, set()).add('fail')
    else:
        rep.must(zero, f'{n}: exits without an error after success', f'status {status}', st)
        seen.setdefault(n, set()).add('ok')
    if n == 'ShellCompletion': return completion(rep, I, st, arg, ops, failed, n)
    want = [('open', None)]
    if n == 'Ping': m, ta = ('scan', None) if bc else ('ping', None)
    else: m, ta = TABLE.get(n, (None, None))
    if m is None: return
    names = [e[1] for e in ops]
    full = ['open'] if refused else ['open', m]
    if refused and not names: pass
    elif failed: rep.must(names == full[:len(names)] and ops[-1] is failed[0], f'{n}: opens the port and performs only {m}', str(names), st)
    else: rep.must(names == full, f'{n}: opens the port and performs {m}', str(names), st)
    if names[:1] == ['open']:
        e = ops[0]
        rep.must(e[2][0] == ('path', pathkey(I, st, o[fields['serial_port']])), f'{n}: opens the given port', str(e[2][0])[:200], st)
        rep.must(lambda: F.prove_eq(e[2][1][1], o[fields['baud_rate']]), f'{n}: opens the port at the given baud rate', str(e[2][1])[:200], st)
    if len(ops) < 2 or ops[1][1] != m: return
    e = ops[1]
    av = e[2]
    rep.must(lambda: isinstance(av[0][1], Opq) and av[0][1].key == ('res', 'open', ops[0][5]), f'{n}: uses the opened port', str(av[0])[:200], st)
    if m == 'scan': return
    rid = C(254) if bc else mid.fields[0]
    rep.must(lambda: F.prove_eq(av[1][1], rid), f'{n}: addresses the given motor', str(av[1])[:200], st)
    if 'address' in arg: rep.must(lambda: F.prove_eq(av[2][1], arg['address']), f'{n}: uses the given address', str(av[2])[:200], st)
    if m == 'read': rep.must(e[3][-1] == ta, f'{n}: reads a value of type {ta}', str(e[3])[:200], st)
    if m == 'read_bytes': rep.must(lambda: F.prove_eq(av[3][1], arg['count']), f'{n}: reads the given number of bytes', str(av[3])[:200], st)
    if m == 'write':
        rep.must(av[3][2].lstrip('&') == ta, f'{n}: writes a value of type {ta}', str(av[3])[:200], st)
        rep.must(lambda: F.prove_eq(av[3][1], arg['value']), f'{n}: writes the given value', str(av[3])[:200], st)
    if m == 'write_bytes':
        cid = ('tmpdata', fresh_id()); st = st.copy(); st.cells[cid] = arg['data']
        rep.must(lambda: av[3][:2] == data_key(I, st, Ptr(cid, ())), f'{n}: writes the given bytes', str(av[3])[:200], st)

def deref_options(I, st, ot):
    """The fields of the parsed options, as refined on this path."""
    if ('parse',) not in [e[:1] for e in st.ev]: return None
    i = next(j for j, t in enumerate(I.P.types) if t is ot)
    v = I.expand(st, Opq(i, ('options',)), 0)
    return v.fields

def exit_code(I, st, v):
    while isinstance(v, Agg) and len(v.fields) == 1: v = v.fields[0]
    if isinstance(v, Poly): return v
    if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'exitcode': return v.key[1]
    raise Unsup('exit code')

def completion(rep, I, st, arg, ops, failed, n):
    F = st.F
    names = [e[1] for e in ops]
    rep.must('open' not in names, f'{n}: does not open a port', str(names), st)
    gens = [e for e in st.ev if e[0] == 'generate']
    rep.must(len(gens) == 1 and gens[0][1] == vkey(I, st, deref(I, st, arg['shell'])), f'{n}: generates the script of the given shell', str(gens)[:200], st)
    out = arg['output']
    if not isinstance(out, Agg): out = I.expand(st, out, I.variant_of(st, out))
    if failed:
        rep.must(ops[-1] is failed[0], f'{n}: stops after a failure', str(names), st)
        if names == ['create']: pass
    dash = out.variant == 0
    pk = None
    if not dash:
        pk = pathkey(I, st, out.fields[0])
        k = sorted((pk, ('str', '-')), key=repr)
        x, y = Opq(0, ('path', ('str', '-'))), Opq(0, ('path', pk))
        known = [z for z in (F.decide(models.val_eq(I, st, x, y)), F.decide(('bv', F.nkey(('valeq',) + tuple(sorted((vkey(I, st, x), vkey(I, st, y)), key=repr))), True)), F.decide(('bv', F.nkey(('patheq', k[0], k[1])), True))) if z is not None]
        dash = known[0] if known else decide_fork(I, st, ('patheq', k[0], k[1]))
    if dash:
        rep.must(names[:1] == ['write_all'] and not any('create' in x or 'fs' in x for x in names), f'{n}: writes to standard output', str(names), st)
        w = ops[0] if names[:1] == ['write_all'] else None
    else:
        cr = [e for e in ops if e[1] in ('create', 'fs_write')]
        rep.must(len(cr) == 1 and cr[0][2][0] == ('path', pk), f'{n}: writes to the given file', str(ops)[:200], st)
        ws = [e for e in ops if e[1] in ('write_all', 'fs_write')]
        if not failed: rep.must(len(ws) == 1, f'{n}: writes the file', str(names), st)
        w = ws[0] if ws else None
        if w is not None and w[1] == 'write_all' and cr:
            rep.must(w[2][0] == ('dest', ('res', 'create', cr[0][5])), f'{n}: writes into the created file', str(w[2])[:200], st)
    if w is not None: rep.must("'script'" in repr(w[2][1]) or 'script' in str(w[2][1]), f'{n}: writes the generated script', str(w[2][1])[:300], st)

def from_str(rep, P):
    rs = [r for r in P.roots if r['path'].endswith('FromStr>::from_str') and 'MotorId' in r['path']]
    if not rs: raise Missing('parsing of motor IDs')
    r = rs[0]
    I = start(P, False)
    b = P.bodies[r['body']]
    class R: pass
    R = R(); R.root = r; R.I = I; R.error = None; R.outs = []; R.body = b; R.time = 0
    st = St()
    a = StrV(('arg',))
    try: R.outs = [o for o in I.run_body(st, b, [a], None, None) if not o[0].F.infeasible()]
    except Unsup as u: R.error = str(u)
    rep.saw(R)
    good = 0
    ka = ('str', ('arg',))
    for st, kind, v in R.outs:
        rep.must(kind == 'ret', 'motor ID: parsing does not panic', kind, st)
        if kind != 'ret': continue
        F = st.F
        k = sorted((ka, ('str', 'broadcast')), key=repr)
        word = F.decide(('bv', F.nkey(('eq_ignore_ascii_case', k[0], k[1])), True))
        num = F.decide(('bv', F.nkey(('parse_ok', 'u8', ka)), True))
        x = opq_of(I, st, next(i for i, t in enumerate(P.types) if t.get('k') == 'int' and t['name'] == 'u8'), ('parsed', 'u8', ka))
        if v.variant == 1:
            rep.must(word is False and num is False, 'motor ID: only texts that are neither a number nor "broadcast" are refused', F.show()[:200], st)
            continue
        m = v.fields[0]
        mt = next(t for t in P.types if t.get('k') == 'adt' and t.get('name') == m.ty)
        if mt['variants'][m.variant]['name'] == 'Broadcast':
            rep.must(word is True or (num is True and F.prove_eq(x, C(254))), 'motor ID: only "broadcast" and 254 are the broadcast ID', F.show()[:200], st)
        else:
            good += 1
            rep.must(word is False and num is True and F.prove_eq(m.fields[0], x), 'motor ID: a number is that motor ID', F.show()[:200], st)
            rep.must(F.decide(eq(x - 254)) is False, 'motor ID: 254 is the broadcast ID', F.show()[:200], st)
    rep.some(R, good > 0, 'motor ID: numbers are accepted')

def run(tier):
    rep = Rep()
    for t in (('main', False), ('main', True), ('from_str',)): rep.add(p26_one(None, t, 'P26'))
    return rep
