PROPERTY = 'P12'
NEEDS = 'a read instruction with more than four parameters'
BREAKS = 'a read instruction with a wrong parameter count is accepted'
EDITS = [('src/device.rs', 'InvalidParameterCount::check(parameters.len(), 4)?;', 'InvalidParameterCount::check_min(parameters.len(), 4)?;')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for n in 0..9usize {
		let p = Port::new();
		let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		let mut b = vec![0x02]; b.extend(1..=n as u8);
		p.feed(&frame(5, &b));
		ok(d.read(Duration::from_millis(1)).is_ok() == (n == 4), &format!("read with {n} parameters"));
	}
}
'''
