PROPERTY = 'P04'
NEEDS = 'a reply whose parameters were byte-stuffed'
BREAKS = 'the delivered message has the length it had with stuffing: stale bytes follow the parameters'
EDITS = [('src/bus/mod.rs', 'let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];', 'let data = &self.read_buffer.as_ref()[..parameters_end.max(HEADER_SIZE + parameter_count)];')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.reply(&status(1, 0, &[1, 0xFF, 0xFF, 0xFD, 0xFD, 2]));
	let r = c.transfer_single(1, 2, 0, 5, |_| Ok(())).unwrap();
	ok(r.parameters() == [1, 0xFF, 0xFF, 0xFD, 2], &format!("{:?}", r.parameters()));
}
'''
