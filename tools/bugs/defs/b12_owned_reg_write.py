PROPERTY = 'P13'
NEEDS = 'a device that uses read_owned and gets a registered write'
BREAKS = 'the owned form of a registered write is an immediate write'
EDITS = [('src/device.rs', 'Instructions::RegWrite { address, parameters } => Instructions::RegWrite {\n\t\t\t\taddress,', 'Instructions::RegWrite { address, parameters } => Instructions::Write {\n\t\t\t\taddress,')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for i in [0x03u8, 0x04] {
		let p = Port::new();
		let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		p.feed(&frame(5, &[i, 1, 0, 9, 8]));
		p.feed(&frame(5, &[i, 1, 0, 9, 8]));
		let a = format!("{:?}", d.read(Duration::from_millis(1)).unwrap());
		let b = format!("{:?}", d.read_owned(Duration::from_millis(1)).unwrap());
		ok(a == b, &format!("{a} and {b}"));
	}
}
'''
