PROPERTY = 'P08'
NEEDS = 'an instruction that is exactly one byte too long for the write buffer'
BREAKS = 'the size check misses one byte: instead of BufferTooSmall the client panics'
EDITS = [('src/bus/packet.rs', 'super::HEADER_SIZE + 1 + parameters + 2', 'super::HEADER_SIZE + parameters + 2')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for n in 0..40usize {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 24]).unwrap();
		let data = vec![7u8; n];
		let r = run(|| c.write_bytes(0xFE, 5, &data));
		let fits = 7 + 1 + 2 + n + 2 <= 24;
		match r {
			None => ok(false, &format!("panic with {n} bytes")),
			Some(Ok(_)) => ok(fits, "accepted although it does not fit"),
			Some(Err(TransferError::WriteError(WriteError::BufferTooSmall(_)))) => ok(!fits && p.log().is_empty(), "refused and port untouched"),
			Some(Err(e)) => ok(false, &format!("{e:?}")),
		}
	}
}
'''
