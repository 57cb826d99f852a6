PROPERTY = 'P05'
NEEDS = 'a ping reply with a valid checksum and only two parameters'
BREAKS = 'the parser of ping replies indexes a parameter that is not there and panics'
EDITS = [('src/instructions/ping.rs', 'crate::InvalidParameterCount::check(parameters.len(), 3)?;', 'crate::InvalidParameterCount::check_min(parameters.len(), 2)?;')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for params in [&[1u8, 2][..], &[1][..], &[][..], &[1, 2, 3, 4][..]] {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		p.reply(&status(1, 0, params));
		let r = run(|| c.ping(1));
		ok(matches!(r, Some(Err(TransferError::ReadError(_)))), &format!("ping with {} parameters: {r:?}", params.len()));
	}
}
'''
