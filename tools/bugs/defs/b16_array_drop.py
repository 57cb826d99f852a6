PROPERTY = 'P21'
NEEDS = 'decoding an array whose element type owns something and fails to decode in the middle'
BREAKS = 'the partially filled array drops one element less than it holds: the first decoded element leaks'
EDITS = [('src/bus/data.rs', 'for elem in &mut self.data[..self.initialized] {', 'for elem in self.data[..self.initialized].iter_mut().skip(1) {')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
	static LIVE: AtomicIsize = AtomicIsize::new(0);
	struct D;
	impl Drop for D { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
	impl bus::Data for D {
		const ENCODED_SIZE: u16 = 1;
		fn encode(&self, _: &mut [u8]) -> Result<(), BufferTooSmallError> { Ok(()) }
		fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
			if b[0] == 9 { return Err(InvalidParameterCount { actual: 0, expected: ExpectedCount::Exact(1) }.into()); }
			LIVE.fetch_add(1, SeqCst);
			Ok(D)
		}
	}
	for data in [[1u8, 1, 1], [9, 1, 1], [1, 9, 1], [1, 1, 9]] {
		drop(<[D; 3] as bus::Data>::decode(&data));
		ok(LIVE.load(SeqCst) == 0, &format!("nothing leaks from {data:?}"));
	}
}
'''
