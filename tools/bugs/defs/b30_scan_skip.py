PROPERTY = 'P18'
NEEDS = 'a motor that answers a broadcast ping with an error number set'
BREAKS = 'a reply that carries an error ends the scan, the motors after it are not reported'
EDITS = [('src/instructions/ping.rs', 'Err(e) => Some(Err(e)),', 'Err(ReadError::MotorError(_)) => None,\n\t\t\tErr(e) => Some(Err(e)),')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.reply(&[status(1, 0, &[1, 2, 3]), status(2, 4, &[1, 2, 3]), status(3, 0, &[1, 2, 3])].concat());
	let v: Vec<_> = c.scan().unwrap().map(|r| r.map(|r| r.motor_id).ok()).collect();
	ok(v == [Some(1), None, Some(3)], &format!("{v:?}"));
}
'''
