PROPERTY = 'P11'
NEEDS = 'a sync read instruction for at least 256 bytes per motor'
BREAKS = 'the device looks at the low byte of the length only'
EDITS = [('src/device.rs', 'length: read_u16_le(&parameters[2..4]),\n\t\t\t\t\tids: &parameters[4..],', 'length: u16::from(parameters[2]),\n\t\t\t\t\tids: &parameters[4..],')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for l in [4u16, 255, 256, 300, 0xFFFF] {
		let p = Port::new();
		let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		p.feed(&frame(0xFE, &[0x82, 10, 1, l as u8, (l >> 8) as u8, 1, 2]));
		match d.read(Duration::from_millis(1)).unwrap().instruction {
			Instructions::SyncRead { address, length, ids } => ok(address == 266 && length == l && ids == [1, 2], &format!("sync read of {l} bytes")),
			i => ok(false, &format!("{i:?}")),
		}
	}
}
'''
