PROPERTY = 'P06'
NEEDS = 'a corrupt message that arrives in the same read as a good one after it'
BREAKS = 'after a checksum mismatch everything in the buffer is thrown away instead of the corrupt message only'
EDITS = [('src/bus/mod.rs', 'self.consume_read_bytes(stuffed_message_len);', 'self.consume_read_bytes(self.read_len);')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	let mut bad = frame(3, &[0x02, 1, 0, 2, 0]);
	bad[9] ^= 0x10;
	p.feed(&bad);
	p.feed(&frame(4, &[0x01]));
	ok(d.read(Duration::from_millis(1)).is_err(), "the first message is corrupt");
	match d.read(Duration::from_millis(1)) {
		Ok(i) => ok(i.id == 4, "second message"),
		Err(e) => ok(false, &format!("the message after it is lost: {e:?}")),
	}
}
'''
