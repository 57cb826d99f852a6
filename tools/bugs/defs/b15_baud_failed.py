PROPERTY = 'P20'
NEEDS = 'a serial port that refuses a baud rate'
BREAKS = 'the cached baud rate changes although the port keeps the old one'
EDITS = [('src/bus/mod.rs', 'self.serial_port.set_baud_rate(baud_rate)?;\n\t\tself.baud_rate = baud_rate;\n\t\tOk(())', 'self.baud_rate = baud_rate;\n\t\tself.serial_port.set_baud_rate(baud_rate)')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	c.set_baud_rate(9600).unwrap();
	p.with(|p| p.fail_baud = true);
	ok(c.set_baud_rate(1000000).is_err(), "refused");
	ok(c.baud_rate() == 9600 && p.with(|p| p.baud) == 9600, "baud rate unchanged");
}
'''
