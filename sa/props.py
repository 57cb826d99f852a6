"""Registry: which rules decide which property."""
from spec import Rep, Missing, anchor
from session import Session
import client, iters, rules2, rules3, rules4, rules5, rules6, rules7, rules8, rules9, rules10, kernels, kbound
import os

TRUSTED = ['rustc nightly front end and MIR construction', 'the analyser in sa/ (interpreter, numeric domain, LP bound checker)',
           'models of core/alloc functions in sa/models.py', 'contracts of the kernel functions in sa/contracts.py (their bodies are checked by P02, P03, P06)']
ASSUME = ['baud rates are not zero', 'counts passed by the caller are below 2^40, slices are shorter than 2^47 bytes and all caller data of one call is below 2^60 bytes',
          'SerialPort implementations return at most the length of the given buffer from read() and do not panic', 'iterators passed by the caller keep the ExactSizeIterator contract, AsRef/Borrow implementations are pure']

NOTE = 'Every obligation is decided for all inputs by the analysis of the current source; obligations the analysis cannot decide are counted as undecided in the evidence and raise no alarm. Trusted: ' + '; '.join(TRUSTED) + '.'
class Prop:
    def __init__(self, run, rule, level='proof', trusted=TRUSTED, assumptions=ASSUME, technique='abstract interpretation of MIR', note=NOTE):
        self.run = run; self.rule = rule; self.level = level; self.trusted = trusted; self.assumptions = assumptions
        self.technique = technique; self.note = note

_sess = {}
def session(config='default', **kw):
    s = _sess.get(config)
    if s is None:
        s = _sess[config] = Session(config, **kw)
        recv = anchor(s.P, 'recv')['path']
        yes = lambda t: 1 if t == recv else 3     # rounds of a loop that are unrolled in the bounded mode
        s.refutable = {_client_one: yes, _device_one: yes, rules3.p05_one: yes, rules3.p25_one: yes, rules4.run: lambda t: 1, rules5.p22_one: lambda t: 300 if t == 'array' else 0, rules5.p21_one: lambda t: 300, _iter_one: lambda t: 3 if t[0] in ('step', 'scan') and t[2] != 'drop' else 0}
    return s

def need(S, rep, table, pred, what):
    """The public functions a property is about have to exist."""
    names = {r['name'] for r in S.roots if pred(r)}
    for n in table:
        rep.must(n in names, f'{what}::{n} exists', 'function not found')

def client_rules(prop, everything=True):
    def run(tier):
        S = session()
        roots = [r['path'] for r in S.roots if (everything and r['pub'] and r['reachable']) or client.cmd_of(r)]
        rep = Rep()
        need(S, rep, client.CLIENT, client.is_client, 'Client')
        if prop in ('P01', 'P08'): need(S, rep, client.DEVICE, client.is_device, 'Device')
        for x in S.parallel(_client_one, sorted(set(roots)), prop): rep.add(x)
        if prop in iters.PR: rep.add(iter_rules(prop)(tier))
        if rules2.tasks(prop): rep.add(device_rules(prop)(tier))
        return rep
    return run
def iter_rules(prop, kinds=None):
    def run(tier):
        S = session()
        rep = Rep()
        for x in S.parallel(_iter_one, [t for t in iters.tasks() if kinds is None or t[1] in kinds], prop): rep.add(x)
        return rep
    return run
def device_rules(prop):
    def run(tier):
        S = session()
        rep = Rep()
        for x in S.parallel(_device_one, rules2.tasks(prop), prop): rep.add(x)
        return rep
    return run
def task_rules(mod, prop):
    def run(tier):
        S = session()
        rep = Rep()
        items, fn = mod.TASKS[prop]
        for x in S.parallel(fn, items(S), prop): rep.add(x)
        return rep
    return run
def both(*runs):
    def run(tier):
        rep = Rep()
        for r in runs: rep.add(r(tier))
        return rep
    return run
def kernel_rules(*names):
    """The bodies of kernel functions that the other rules of the property rely on."""
    def run(tier):
        S = session()
        rep = Rep()
        for x in S.parallel(_kernel_one, list(names), ''): rep.add(x)
        return rep
    return run
def only(run, *words):
    """The part of a rule set whose obligations mention one of the words."""
    def f(tier):
        r = run(tier); rep = Rep()
        rep.add(r)
        hit = lambda k: any(w in k for w in words) or 'analysis incomplete' in k
        rep.viol = {k: v for k, v in r.viol.items() if hit(k)}
        rep.und = {k: v for k, v in r.und.items() if hit(k)}
        rep.ob = rep.ok + len(rep.viol) + len(rep.und)
        return rep
    return f
def _kernel_one(S, n, prop):
    r = kernels.run(S, getattr(kernels, n), prop)
    if (r.und or os.environ.get('VERIF_FORCE_BOUNDED')) and hasattr(kbound.Bounded, 'k_' + n): kbound.refute(S, n, r)
    return r
def _device_one(S, t, prop): return rules2.run_task(S, t)[prop]
def _iter_one(S, t, prop): return iters.run_task(S, t)[prop]
def _client_one(S, path, prop): return client.analyse(S, path)[prop]

AI = 'path-partitioned abstract interpretation of the MIR of every entry point (relational numeric domain, symbolic byte contents, inductive loop invariants): '
REG = {
    'P01': Prop(both(client_rules('P01'), kernel_rules('crc', 'stuff')), AI + 'every write to the port, in every partition, has exactly the content of one frame built from the stuffed body, and its checksum is computed over all preceding bytes'),
    'P02': Prop(kernel_rules('crc'), 'abstract interpretation of the MIR of the checksum function in a domain of GF(2)-affine bit vectors: one round of the loop, as a function of the register and the next byte, equals eight steps of the CRC polynomial, for all values at once; the loop visits every byte in order and starts with the given value'),
    'P03': Prop(both(kernel_rules('stuff', 'unstuff'), only(client_rules('P01'), 'byte-stuffed', 'well-formed frame'), only(task_rules(rules4, 'P04'), 'exactly the content')), 'bisimulation of the loops, abstracted from the MIR by abstract interpretation, with the automaton of the pattern FF FF FD (removing: transition by transition; inserting: the number of occurrences and, backwards, the bytes that each round moves); every transmitted body and every delivered body passes through them'),
    'P04': Prop(both(task_rules(rules4, 'P04'), device_rules('P04'), kernel_rules('crc', 'unstuff')), AI + 'every partition of the receive function that returns a packet implies, relative to the symbolic stream of received bytes, a header prefix, a complete message and a matching checksum, and its content is the unstuffed body; the accessors return exactly their part of it'),
    'P05': Prop(both(task_rules(rules3, 'P05'), only(kernel_rules('find_header', 'crc', 'unstuff', 'transfer_time'), 'does not panic'),
                     only(task_rules(rules4, 'P04'), 'a delivered message has an instruction'), only(device_rules('P04'), 'as_status', 'as_instruction')), AI + 'every assertion, unwrap, index, arithmetic operation and unsafe precondition reached from a function that handles received data is unreachable as a panic, in every partition; what that assumes about received packets holds for every packet the receive function delivers'),
    'P06': Prop(both(task_rules(rules4, 'P06'), kernel_rules('find_header')), AI + 'the stream position up to which the receive function has consumed is compared, in every partition, with the end of the message; skipped bytes contain no header; unconsumed bytes stay in the buffer in order; every round of the loop makes progress'),
    'P07': Prop(client_rules('P07'), AI + 'every write is preceded by exactly one discard and an empty receive window; no other function discards'),
    'P08': Prop(both(client_rules('P08', False), task_rules(rules3, 'P08'), kernel_rules('stuff')), AI + 'partitions without a write end in BufferTooSmall and imply that the message does not fit; partitions with a write imply that it fits'),
    'P09': Prop(client_rules('P09', False), AI + 'packet ID, instruction and unstuffed parameters of every transmitted message equal the protocol table for all arguments'),
    'P10': Prop(client_rules('P10', False), AI + 'announced, transmitted and expected sizes of typed commands equal the encoded size constant of the value type'),
    'P11': Prop(device_rules('P11'), AI + 'every partition of the conversions and device reads is compared with the decoding table for the instruction number of the received packet: variant, packet ID, every field and its position; the loop of the raw read only skips status packets'),
    'P12': Prop(device_rules('P12'), AI + 'in every partition a decoded instruction implies that its parameter count fits, and the parameter count error implies that it does not and carries the actual count and the bound'),
    'P13': Prop(device_rules('P13'), AI + 'the owned conversion and both device reads are compared, partition by partition, with the borrowed conversion of the same packet'),
    'P14': Prop(client_rules('P14', False), AI + 'partitions that return a value imply status instruction, packet ID and parameter count of the awaited packet; the other partitions carry the matching error'),
    'P15': Prop(client_rules('P15', False), AI + 'partitions by the error field of the awaited packet: error numbers give MotorError, the alert bit becomes the alert flag'),
    'P16': Prop(client_rules('P16', False), AI + 'number of waits per partition, split by packet ID'),
    'P17': Prop(iter_rules('P17'), AI + 'the multi-response iterators are compared step by step with their specification: remaining count, awaited motor and expected size of the state after one item equal those of the state before it shifted by one (observational induction); dropping awaits exactly the remaining replies'),
    'P18': Prop(iter_rules('P18', ('Scan',)), AI + 'every step of a scan awaits one packet; only a timeout of the port ends it; after an end or another port error no step touches the port again; dropping repeats steps until the end'),
    'P19': Prop(both(client_rules('P19', False), task_rules(rules4, 'P19'), task_rules(kernels, 'P19')), AI + 'every wait uses the one deadline made for it and that deadline is at least the transfer time of the expected reply plus 34 ms'),
    'P20': Prop(task_rules(rules3, 'P20'), AI + 'the rate field of the bus at every exit of every public function is compared with the rate the port was given, opened with or reported'),
    'P21': Prop(task_rules(rules5, 'P21'), 'abstract interpretation of the MIR of the array decoder with unwind edges and drop effects: on every exit (value, error, unwinding out of an element decoder) the elements decoded so far, described by the inferred loop statements, are either all in the returned array or dropped exactly once; unchecked accesses are in bounds'),
    'P22': Prop(task_rules(rules5, 'P22'), AI + 'value, content and error of every partition of encode and decode of each integer type and of arrays (generic element and length) equal the little-endian specification; encoded size constants are evaluated in the same domain'),
    'P23': Prop(rules8.p23, 'abstract interpretation of the MIR of several occurrences of the macro (in a witness crate, both build profiles) with the guard as a linear resource: on every path a mutable reference to the memory is preceded by an atomic exchange whose old value is known to be the initial value and whose new value differs from it, no path restores the initial value, and only paths that found another value panic; the memory is a zeroed static item of the requested size, one per occurrence'),
    'P24': Prop(both(client_rules('P24'), task_rules(rules4, 'P24')), AI + 'after a failed port operation no further operation follows and the error value of the port is in the returned variant'),
    'P25': Prop(task_rules(rules3, 'P25'), AI + 'every reachable panic is before any transmission and implies a documented fault of the arguments; transmitting partitions imply, through the inferred statement about all completed iterations, that no two items name the same motor and that all lengths are valid'),
    'P26': Prop(rules10.run, 'abstract interpretation of the MIR of the command line tool from main: operations of the library, the file system and standard output are events with a case distinction over their outcome; every path, partitioned by subcommand and outcomes, is compared with the table of subcommands (operation, receiver, every argument, order) and with the exit status'),
    'P27': Prop(rules7.run, 'the crate is extracted in every feature configuration (a configuration that does not build, or lacks a protocol function, is reported); the abstract interpretation rules of P01, P04-P19, P24 and P25 are evaluated in the configurations without default features and with logging (log statements enabled and disabled) and without debug assertions, and an obligation has to hold in all of them or in none'),
    'P29': Prop(task_rules(rules9, 'P29'), 'lifetime analysis of the signature of every public function (each lifetime in a result is that of the borrow of the client, device or iterator, or of the packet it was taken from; no untracked pointers), and pairs of programs for every function that returns borrowed data: the program that keeps the data across another operation, sharing, or the end of the owner is rejected by the borrow checker, its correct twin compiles'),
    'P28': Prop(task_rules(rules6, 'P28'), AI + 'clock readings, deadlines and timeouts are values of the numeric domain: in every partition of the port functions the sequence of serial2 operations, their arguments and the result equal the specification; a read in a partition that does not imply that the deadline lies ahead is reported'),
}
