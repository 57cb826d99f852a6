PROPERTY = 'P07'
NEEDS = 'a stale status packet in the kernel buffer (for example a late reply) when the next instruction is transmitted while bytes are held in the read buffer'
BREAKS = 'the kernel buffer is only discarded when the read buffer of the bus was empty'
EDITS = [('src/bus/mod.rs', '''		self.read_len = 0;
		self.used_bytes = 0;
		self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;
''', '''		if self.read_len == self.used_bytes {
			self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;
		}
		self.read_len = 0;
		self.used_bytes = 0;
''')]
DEMO = '''
use dynamixel2::*;
use support::*;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 16], vec![0; 64]).unwrap();
	// A late reply of motor 1 arrives together with the current one; not all of it fits the read buffer.
	p.reply(&[status(1, 0, &[7]), status(1, 0, &[8]), status(1, 0, &[8])].concat());
	ok(c.read::<u8>(1, 10).unwrap().data == 7, "first read");
	p.reply(&status(1, 0, &[9]));
	let r = c.read::<u8>(1, 10).map(|x| x.data);
	ok(matches!(r, Ok(9)), &format!("stale data is used: {r:?}"));
}
'''
