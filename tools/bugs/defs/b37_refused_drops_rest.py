PROPERTY = 'P08'
NEEDS = 'a command that is refused because of byte stuffing (or by its encoder) while the device or client holds a received message that was not read yet'
BREAKS = 'bytes that were already received are dropped before it is known whether the message fits: after a refused status reply the next instruction, received in the same read, is lost'
EDITS = [('src/bus/mod.rs', 'let buffer = self.write_buffer.as_mut();\n', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tlet buffer = self.write_buffer.as_mut();\n'), ('src/bus/mod.rs', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial', 'self.serial')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 20]).unwrap();
	p.feed(&[frame(1, &[0x02, 1, 0, 40, 0]), frame(2, &[0x01])].concat());
	ok(d.read(Duration::from_millis(1)).is_ok_and(|i| i.id == 1), "first instruction");
	ok(matches!(d.write_status(1, 0, 9, |b| { b.copy_from_slice(&[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD]); Ok(()) }), Err(WriteError::BufferTooSmall(_))), "the reply does not fit");
	match d.read(Duration::from_millis(1)) {
		Ok(i) => ok(i.id == 2, "second instruction"),
		Err(e) => ok(false, &format!("the second instruction is lost: {e:?}")),
	}
}
'''
