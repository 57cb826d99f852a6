PROPERTY = 'P01'
NEEDS = 'a status reply with an error number and with parameters'
BREAKS = 'the error number is dropped from status replies that have parameters'
EDITS = [('src/bus/mod.rs', 'buffer[0] = error;', 'buffer[0] = if parameter_count > 0 { error & 0x80 } else { error };')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for (error, n) in [(0u8, 0usize), (0, 3), (0x80, 3), (0x85, 0), (0x85, 3), (7, 1), (7, 0)] {
		let p = Port::new();
		let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		d.write_status(9, error, n, |b| { b.fill(0x11); Ok(()) }).unwrap();
		ok(p.written() == [status(9, error, &vec![0x11; n])], &format!("status with error {error} and {n} parameters"));
	}
}
'''
