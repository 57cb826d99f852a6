PROPERTY = 'P24'
NEEDS = 'a serial port that fails to discard its input'
BREAKS = 'the failed discard is reported as a failed write'
EDITS = [('src/bus/mod.rs', '.map_err(WriteError::DiscardBuffer)?;', '.map_err(WriteError::Write)?;')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.with(|p| p.fail_discard = true);
	ok(matches!(c.ping(1), Err(TransferError::WriteError(WriteError::DiscardBuffer(_)))), "discard error");
	ok(p.written().is_empty(), "nothing is sent");
	p.with(|p| { p.fail_discard = false; p.fail_write = true; });
	ok(matches!(c.ping(1), Err(TransferError::WriteError(WriteError::Write(_)))), "write error");
}
'''
