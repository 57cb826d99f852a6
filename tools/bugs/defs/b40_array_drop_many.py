PROPERTY = 'P21'
NEEDS = 'decoding of an array fails after more than 255 elements have been decoded'
BREAKS = 'at most 255 of the elements decoded so far are dropped, the others leak'
EDITS = [('src/bus/data.rs', 'for elem in &mut self.data[..self.initialized] {', 'let initialized = self.initialized.min(u8::MAX.into());\n\t\tfor elem in &mut self.data[..initialized] {')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	use dynamixel2::bus::Data;
	use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
	static LIVE: AtomicUsize = AtomicUsize::new(0);
	struct E;
	impl Drop for E { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
	impl Data for E {
		const ENCODED_SIZE: u16 = 1;
		fn encode(&self, _: &mut [u8]) -> Result<(), BufferTooSmallError> { Ok(()) }
		fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
			if b[0] == 9 { InvalidParameterCount::check(1, 2)?; }
			LIVE.fetch_add(1, SeqCst);
			Ok(E)
		}
	}
	for bad in [0usize, 1, 200, 255, 256, 290, 299] {
		let mut b = vec![0u8; 300];
		b[bad] = 9;
		ok(<[E; 300]>::decode(&b).is_err(), "decoding fails");
		ok(LIVE.load(SeqCst) == 0, &format!("{} elements leak when element {bad} fails", LIVE.load(SeqCst)));
	}
	drop(<[E; 300]>::decode(&[0; 300]).unwrap_or_else(|_| panic!()));
	ok(LIVE.load(SeqCst) == 0, "complete array");
}
'''
