PROPERTY = 'P19'
NEEDS = 'a reply with more than 255 parameters (or exactly a multiple of 256) at a low baud rate'
BREAKS = 'the timeout is computed from the truncated parameter count, so long replies time out before they can arrive'
EDITS = [('src/client.rs', 'message_len(expected_parameters as usize) as u32', 'message_len(expected_parameters as u8 as usize) as u32')]
DEMO = '''
use dynamixel2::*;
use std::time::Duration;
use support::*;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 2048], vec![0; 64]).unwrap();
	for n in [10u16, 255, 256, 300, 1000] {
		p.log();
		c.read_status_response(n).ok();
		let d = p.deadlines();
		let need = Duration::from_nanos((n as u64 + 11) * 10 * 1_000_000_000 / 57600) + Duration::from_millis(34);
		ok(d.len() == 1 && d[0] >= need, &format!("{n}: {d:?} < {need:?}"));
	}
}
'''
