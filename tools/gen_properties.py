#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed output is the source of truth for readers)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

BUS='src/bus/mod.rs'; PK='src/bus/packet.rs'; BS='src/bus/bytestuff.rs'; CK='src/checksum.rs'; CL='src/client.rs'; DV='src/device.rs'
INS='src/instructions/'; DT='src/bus/data.rs'; ER='src/error.rs'; RS='src/response.rs'; S2='src/serial_port/serial2.rs'

prop('P01', 'Every transmitted message is one well-formed protocol 2.0 frame',
 'Every client command and every device status reply that is transmitted is handed to the serial port as exactly one write that contains the complete message: FF FF FD 00, packet ID, 16-bit little-endian length counting everything after the length field, the byte-stuffed instruction (status: error field too) and parameters, and the CRC-16 of all preceding bytes in little-endian. '
 'This holds for any packet ID, instruction, parameters and buffer sizes, also when earlier commands on the same object failed. Nothing else is ever written to the port.',
 ['inputs','histories'], 'all parameter contents and lengths, all write buffer sizes, all earlier operations on the same client or device',
 'The tests send a handful of fixed messages through a mock pair; header, length, stuffing and checksum are never compared with the protocol for arbitrary contents, sizes or after failed commands.',
 [BUS,CL,DV], [('write_packet fills the pre-initialised header and appends the checksum', BUS+' Bus::write_packet'),('write_status / write_instruction funnel into write_packet', BUS)],
 [('write_buffer','outgoing message; first 4 bytes always hold the header prefix', BUS+' struct Bus')], ['SerialPort::write_all'])

prop('P02', 'Checksum is CRC-16 (poly 0x8005) and can be chained',
 'The public checksum function computes the protocol 2.0 CRC (polynomial 0x8005, most significant bit first, no reflection, no final xor) over every byte of its input in order, starting from the given initial value. '
 'Hence checksumming two blocks by passing the first result as initial value of the second equals checksumming their concatenation, for all data and all initial values.',
 ['inputs'], 'all initial values and byte sequences of any length',
 'One 8-byte message is checked; 256 table entries and all initial values are out of reach of that sample.',
 [CK], [('table-driven CRC step', CK+' calculate_checksum'),('lookup table', CK+' TABLE')], observe=['calculate_checksum return value'])

prop('P03', 'Byte stuffing is applied and removed exactly per protocol',
 'In transmitted messages every FF FF FD in the instruction and parameters is followed by one inserted FD and nothing else is changed, so the header pattern cannot occur in a body. '
 'In received messages exactly those inserted FD bytes are removed, so removing the stuffing from a stuffed message restores the original content, for all contents including repeated FF and FD bytes.',
 ['inputs'], 'all byte sequences of all lengths, including runs of FF and adjacent or trailing patterns',
 'Unit tests use six hand-written sequences; overlapping runs such as FF FF FF FD were not among them (and were wrong).',
 [BS], [('in-place unstuffing automaton', BS+' unstuff_inplace'),('counting automaton', BS+' stuffing_required'),('backwards in-place insertion', BS+' stuff_inplace')], observe=['bytes handed to SerialPort::write_all','Packet parameters'])

prop('P04', 'Only intact messages are delivered, with exactly their content',
 'A received message is delivered to the user only if it starts with the header prefix, is complete according to its length field and its last two bytes match the CRC of everything before them; a mismatch is always reported as a checksum error carrying both values. '
 'The packet ID, instruction, error field and parameters that the user sees are exactly those of that message with byte stuffing removed: no checksum bytes, no bytes of other messages, nothing missing.',
 ['inputs','fault_sequences'], 'all received byte streams, in any split into reads, including corrupted ones',
 'Tests receive only intact messages produced by the library itself, plus one fixed broken header.',
 [BUS,PK], [('checksum comparison before delivery', BUS+' Bus::read_packet_deadline'),('packet field accessors', PK)],
 [('read_buffer[..read_len]','received bytes', BUS)], ['Client::read_status_response*','Device::read*'])

prop('P05', 'No received bytes can make the client or device panic',
 'Whatever bytes arrive on the bus, in whatever chunks, and whatever errors the serial port reports, reading responses or instructions returns a value or an error and never panics, overflows or reads outside the received data. '
 'This covers every client command, the multi-response iterators including their destructors, scanning, decoding of values and arrays, and all device read functions.',
 ['inputs','fault_sequences','histories'], 'all byte streams, chunkings and port errors, for every public receiving operation',
 'Tests feed well-formed replies only; a length field below 3 or an empty status body panicked and no test noticed.',
 [BUS,PK,CL,DV,INS+'*.rs',DT], [('length and minimum-size checks', BUS+' Bus::read_packet_deadline'),('parameter count checks', ER+' InvalidParameterCount')])

prop('P06', 'Receiving consumes each message exactly once and resynchronises',
 'Bytes before a header prefix are skipped and every complete message is consumed exactly once, including messages with a bad checksum or of the wrong kind; a message announced with an impossible length only loses its header so that later messages are still found. '
 'Bytes received after the current message and incomplete data at a timeout or I/O error are kept for the next read, and every wait either uses data already received or reads into free buffer space, so receiving can not spin without reading the port.',
 ['inputs','histories','fault_sequences'], 'all byte streams, chunkings, and interleavings of successful reads, timeouts and invalid messages',
 'Tests never deliver two messages in one read, a message split around a timeout, or data after a bad checksum.',
 [BUS], [('used_bytes bookkeeping', BUS+' Bus::consume_read_bytes, remove_garbage'),('header search', BUS+' find_header')],
 [('read_len / used_bytes','valid bytes / bytes already consumed', BUS)])

prop('P07', 'Stale input is discarded before every transmission and only then',
 'Each transmission first drops all previously received bytes held by the library and discards the input buffer of the serial port, before the first byte is written. '
 'Between a transmission and the next one nothing discards input, so several replies to one command that arrive in a single read are all seen.',
 ['histories','inputs'], 'all sequences of commands, replies and errors on one client or device',
 'The mock port has no stale data and its discard is a no-op in the tests that pass through it.',
 [BUS], [('discard before write', BUS+' Bus::write_packet')], [('read_len / used_bytes','reset on transmit', BUS)], ['SerialPort::discard_input_buffer','SerialPort::write_all'])

prop('P08', 'Messages that do not fit are refused without touching the port',
 'If the write buffer can not hold the whole stuffed message including header and checksum, or if its length does not fit the 16-bit length field, or if encoding a value fails, the command returns the buffer-too-small write error: no panic, no truncated message, no bytes written, no input discarded and no reply awaited. '
 'A message that does fit is not refused.',
 ['inputs','configurations'], 'all write buffer sizes and all parameter lengths and contents, for every command',
 'All tests use 128-byte buffers and tiny messages.',
 [BUS,BS,ER], [('size checks before any I/O', BUS+' Bus::write_packet, write_status'),('stuffing size check', BS+' stuff_inplace')], observe=['WriteError::BufferTooSmall'])

prop('P09', 'Every command sends its protocol instruction and parameters',
 'Each client function transmits the instruction number of the protocol (ping 01, read 02, write 03, reg write 04, action 05, factory reset 06, reboot 08, clear 10, sync read 82, sync write 83, bulk read 92, bulk write 93) with the parameter layout of the protocol: little-endian address and length, then data, and per-motor records in the given order for sync and bulk commands. '
 'It is addressed to the given motor, or to the broadcast ID FE for scan, sync, bulk and broadcast_* functions; clear and factory reset carry the protocol option bytes.',
 ['inputs','configurations'], 'all motor IDs, addresses, counts, data, option values and lists of motors, for every public command',
 'Tests exercise a few commands with one value each, and compare only through the library\'s own decoder.',
 [INS+'*.rs',CL], [('per-instruction encoders', INS+'*.rs'),('instruction IDs', INS+'mod.rs instruction_id')], observe=['SerialPort::write_all'])

prop('P10', 'Typed operations use the encoded size of the value type everywhere',
 'For every typed read, write, registered write, sync read and sync write the number of data bytes announced, reserved, transmitted and expected back per motor is exactly the encoded size of the value type. '
 'The value is encoded once per motor into exactly that room and decoded from exactly the received parameters.',
 ['inputs','programs'], 'all value types (including user-defined ones of any encoded size), values and motor lists',
 'Tests use u8..u32 with sizes that happen to hide wrong size computations; reg_write and sync_write were wrong.',
 [INS+'read.rs',INS+'write.rs',INS+'reg_write.rs',INS+'sync_read.rs',INS+'sync_write.rs',DT], [('Data::ENCODED_SIZE', DT)])

prop('P11', 'The device decodes every instruction to its protocol meaning',
 'A device read returns for each received instruction packet the variant of its instruction number with the sender\'s packet ID and with address, length, ID list, data or option fields taken from their protocol positions; unknown instructions, clear options and factory reset options are preserved with their raw value and all parameters. '
 'What a client function sends is therefore decoded to the same command with the same arguments.',
 ['inputs'], 'all instruction packets, i.e. all instruction numbers and parameter contents',
 'Integration tests decode a few packets created by the same library.',
 [DV,INS+'mod.rs'], [('TryFrom<InstructionPacket> for Instruction', DV)], observe=['Device::read'])

prop('P12', 'Instructions with a wrong parameter count are rejected, never misparsed',
 'Device decoding succeeds only if the parameter count fits the instruction: exactly 4 for read, exactly 1 for factory reset, at least 2 for write and registered write, at least 1 for clear, at least 4 for sync read and sync write. '
 'Otherwise it reports an invalid-parameter-count error with the actual count and the expected bound; instructions without a fixed layout are never rejected for their count.',
 ['inputs'], 'all instruction numbers and parameter counts', 'No test sends a malformed instruction to a device.',
 [DV,ER], [('InvalidParameterCount::check / check_min', ER)], observe=['Device::read'])

prop('P13', 'Owned and borrowed device reads agree',
 'Reading an instruction as owned data gives exactly the same ID, variant, fields and bytes, or the same error, as reading the same packet as borrowed data.',
 ['inputs'], 'all instruction packets', 'Only a few variants are read as owned data in tests; bulk write was turned into bulk read.',
 [DV], [('TryFrom<InstructionPacket> for Instruction<Vec<u8>>', DV)], observe=['Device::read_owned'])

prop('P14', 'Replies are accepted only if they answer the request',
 'A single-motor command succeeds only if the awaited packet is a status packet from the addressed motor with exactly the expected number of parameters, and the response carries that packet\'s ID and exactly its data; every sync or bulk item likewise for its motor. '
 'Otherwise the matching invalid instruction, packet ID or parameter count error is returned and never a value. Packets that are not status packets are never returned as responses.',
 ['inputs','fault_sequences'], 'all replies, from any motor, of any kind and length, for every command that waits for a reply',
 'Mock devices in the tests always reply with the right ID and size; write-like commands accepted replies of any motor.',
 [CL,INS+'*.rs',DT,RS,ER], [('InvalidPacketId::check, InvalidParameterCount::check', ER),('read_response_if_not_broadcast', INS+'mod.rs')])

prop('P15', 'Error numbers fail the command, the alert bit does not',
 'A reply whose error field has any of the lower 7 bits set makes the operation return a motor error with the raw error value, for every operation that receives replies. '
 'A reply whose error field is 0 or only the alert bit (0x80) succeeds, and its alert flag tells exactly whether that bit was set; error number and alert accessors split the byte in the same way.',
 ['inputs'], 'all 256 error field values, for every receiving operation', 'Tests reply with error 0 only.',
 [CL,PK,ER,RS,DT], [('MotorError::check', ER),('StatusPacket::alert / error_number', PK)])

prop('P16', 'Broadcast commands never wait, unicast commands await one reply',
 'Write, registered write, action, clear, factory reset and reboot sent to the broadcast ID return a success response from the broadcast ID without reading from the port, while for any other ID they await exactly one reply. '
 'The broadcast_* variants and sync and bulk writes send the same command to the broadcast ID and never read.',
 ['inputs'], 'all motor IDs, all such commands', 'No test checks that nothing is read for broadcasts.',
 [INS+'*.rs'], [('read_response_if_not_broadcast', INS+'mod.rs')], observe=['SerialPort::read calls'])

prop('P17', 'Multi-motor reads yield one item per motor, in order, and drain on drop',
 'A sync or bulk read yields exactly one item per requested motor in request order, whether or not earlier items failed, each awaiting one reply for that motor, and then ends; the number of remaining responses reported is exact, and the size hint is consistent with it. '
 'Dropping the iterator early awaits exactly one reply for each motor not yet read, so later commands do not see leftover replies.',
 ['histories','fault_sequences','inputs'], 'all motor lists, all mixes of valid, invalid and missing replies, dropping after any number of items',
 'No test mixes failing replies or drops an iterator early.',
 [INS+'sync_read.rs',INS+'bulk_read.rs'], [('index of next motor', INS+'sync_read.rs, bulk_read.rs'),('Drop implementations', INS+'sync_read.rs, bulk_read.rs')],
 [('index','number of motors already handled', INS+'sync_read.rs')])

prop('P18', 'Scanning reports every reply and always terminates',
 'A scan sends one broadcast ping and yields every reply with the ID, alert bit, model and firmware from the packet and an error for every invalid reply; it ends when the port reports a timeout, and after any other port error it yields that error and then ends without touching the port again. '
 'Dropping a scan reads until it ends that way and stops immediately if the read buffer is too small, so it can not hang on a broken port.',
 ['fault_sequences','histories','inputs'], 'all sequences of replies, invalid messages, timeouts and port errors',
 'The scan test has well-behaved devices only; a failing port made the destructor loop forever.',
 [INS+'ping.rs'], [('scan_next / Drop for Scan', INS+'ping.rs')], [('done','no further reads', INS+'ping.rs')])

prop('P19', 'Every wait for a reply has one sufficient deadline',
 'Each awaited packet uses a single deadline created once per wait and passed unchanged to every port read of that wait, also when packets of another kind are skipped. '
 'The automatic timeout is at least the time to transfer the expected reply (11 bytes plus its parameters; 14 bytes times 253 motors for a scan) at the current baud rate plus 34 ms, transfer times are exact up to rounding up to the next nanosecond, and computing them never overflows.',
 ['inputs','configurations'], 'all parameter counts, non-zero baud rates and receive histories',
 'Unit tests sample transfer times; that the right size, baud rate and a single deadline reach the port is untested.',
 [BUS,CL,DV,INS+'*.rs'], [('message_transfer_time', BUS),('read_status_response', CL),('next_response', INS+'ping.rs')], observe=['SerialPort::make_deadline','SerialPort::read'])

prop('P20', 'The cached baud rate always is the one of the port',
 'Setting the baud rate first reconfigures the port and changes the reported rate only if that succeeds, so after an error the old rate stays in effect; exactly the requested rate is passed on. '
 'New clients and devices use the rate read from the port, or the rate the port was opened with, and every timeout is computed from the currently reported rate; an error reading the rate is returned.',
 ['histories','fault_sequences'], 'all sequences of baud rate changes, with and without port errors, for client and device',
 'No test changes the baud rate or makes the port fail.',
 [BUS,CL,DV], [('Bus::set_baud_rate, with_buffers', BUS)], [('baud_rate','cached rate', BUS)])

prop('P21', 'Decoding arrays is memory safe and never leaks or double-drops',
 'Decoding an array of values yields an array whose elements are the decoded values in order, each owned exactly once. '
 'If decoding an element fails (or unwinds), the elements decoded so far are dropped exactly once, no uninitialised element is ever read or dropped, and no element is written outside the array.',
 ['inputs','programs','fault_sequences'], 'all element types (including ones with destructors), lengths, and positions of a failing element',
 'No test decodes arrays of types with a destructor; elements were dropped twice.',
 [DT], [('ArrayInitializer', DT)], [('initialized','number of initialised leading elements', DT)])

prop('P22', 'Values are encoded little-endian in exactly their size',
 'Every integer type up to 128 bits, signed or unsigned, has its byte size as encoded size, encodes to its little-endian bytes at the start of the given buffer and decodes from exactly that many little-endian bytes; arrays are the concatenation of their elements. '
 'Encoding into a shorter buffer gives a buffer-too-small error and decoding from a buffer of any other length gives a parameter count error; neither panics.',
 ['inputs','programs'], 'all values of all integer types, all array lengths, all buffer lengths',
 'Only a few unsigned values are round-tripped in tests.',
 [DT], [('impl_data_for_number!, impl Data for [T; N]', DT)])

prop('P23', 'A static buffer can be handed out only once',
 'Each occurrence of the static buffer macro gives out its memory at most once in the lifetime of the program, also if it is evaluated concurrently from several threads; every further evaluation panics before a second mutable reference exists. '
 'The buffer has exactly the requested size and starts zeroed.',
 ['schedules','programs'], 'all interleavings of threads evaluating the same occurrence, all sizes',
 'Tests evaluate it repeatedly on a single thread only.',
 [BUS], [('atomic swap guard', BUS+' static_buffer!')], [('USED','set by the first evaluation', BUS)])

prop('P24', 'Port errors surface unchanged in the matching error and end the operation',
 'An error from the serial port while discarding input, writing or reading is returned to the caller as the discard, write or read I/O variant with the original error value, and no success value is produced from that operation. '
 'After an error while discarding nothing is written, after a write error no reply is awaited, and after a read error the same wait performs no further reads.',
 ['fault_sequences'], 'failure of any port call of any command',
 'No test injects port errors.',
 [BUS,CL,DV,ER,INS+'*.rs'], [('map_err to WriteError / ReadError', BUS),('From conversions', ER)])

prop('P25', 'Invalid bulk and sync arguments are caught before anything is sent',
 'Bulk reads and bulk writes that name a motor more than once, bulk writes with more than 65535 bytes for a motor, and raw sync writes with data of another length than announced panic as documented before any byte is transmitted. '
 'Lists without these faults never panic, whatever the lengths, IDs and data.',
 ['inputs'], 'all motor lists, in all orders and lengths', 'No test passes duplicates; bulk_write did not check at all.',
 [INS+'bulk_read.rs',INS+'bulk_write.rs',INS+'sync_write.rs'], [('duplicate check loops', INS+'bulk_read.rs, bulk_write.rs')])

prop('P26', 'Command line tool performs the requested operation or exits non-zero',
 'Each subcommand opens the given port at the given baud rate and performs exactly the matching operation with the given motor ID, address, count, width and value; read commands refuse the broadcast ID and ping with it scans instead. '
 'If opening the port, the operation or writing the completion file fails, the process exits with a non-zero status.',
 ['inputs','fault_sequences'], 'all subcommands, arguments and failures', 'The command line tool has no tests at all.',
 ['dynamixel2-cli/src/bin/dynamixel2/main.rs','dynamixel2-cli/src/bin/dynamixel2/options.rs'], [('do_main', 'main.rs'),('MotorId::assume_unicast', 'options.rs')])

prop('P27', 'Optional features and debug assertions never change what happens on the bus',
 'Enabling or disabling logging, the allocator, the standard library, the bundled serial port support or debug assertions changes neither the messages transmitted, the order of port calls, the results, nor which inputs are accepted. '
 'The library builds in each of these configurations with the same protocol functions available.',
 ['configurations'], 'all feature combinations, with and without debug assertions', 'Tests run with the default features and debug assertions only.',
 ['Cargo.toml','src/log.rs','src/lib.rs',BUS], [('log macros', 'src/log.rs'),('cfg(feature)', 'src/**')])

prop('P28', 'The bundled serial port honours deadlines and reports timeouts',
 'Reading from the bundled serial port waits at most until the given deadline: each read sets the remaining time as timeout before reading, and an already expired deadline gives a timeout error without reading. '
 'Exactly the timed-out I/O errors are recognised as timeouts, deadlines are the current time plus the requested timeout, writes and discards go to the port unchanged and all errors are passed on.',
 ['inputs','fault_sequences'], 'all deadlines, buffers and port errors', 'It needs a real serial device; no test touches it.',
 [S2], [('impl SerialPort for serial2::SerialPort', S2)])

prop('P29', 'Borrowed replies cannot outlive the next bus operation',
 'A packet, instruction or response that borrows from the internal read buffer keeps its client or device mutably borrowed, so no safe program can hold it across another bus operation, past the end of the client or device, or across sharing of the client. '
 'Programs that do so do not compile, for every public function that returns borrowed data.',
 ['programs'], 'all safe programs using the public API', 'Tests only contain programs that compile.',
 [CL,DV,INS+'*.rs',PK], [('lifetimes in public signatures', CL+', '+DV),('unsafe lifetime extension', DV+' Device::read_raw_instruction_timeout')])

prop('P30', 'A waiting command finishes within its deadline in wall-clock time',
 'On real hardware every command returns at the latest shortly after its deadline has passed, regardless of scheduling delays, driver latency and continuous traffic on the bus.',
 ['schedules','fault_sequences'], 'all schedules of the operating system and all traffic patterns', 'Needs real time and real drivers.',
 [S2,BUS], [('deadline passed to every read', BUS)])

with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), max(len(p['title']) for p in P))
