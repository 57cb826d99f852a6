PROPERTY = 'P10'
NEEDS = 'sync_write of a type whose encoding is smaller than the type itself'
BREAKS = 'sync_write announces the size of the value in memory instead of its encoded size'
EDITS = [('src/instructions/sync_write.rs', 'let count = usize::from(T::ENCODED_SIZE);', 'let count = core::mem::size_of::<T>();')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	#[allow(dead_code)]
	struct Goal(u32, u8);
	impl bus::Data for Goal {
		const ENCODED_SIZE: u16 = 5;
		fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> { b[..4].copy_from_slice(&self.0.to_le_bytes()); b[4] = self.1; Ok(()) }
		fn decode(_: &[u8]) -> Result<Self, InvalidMessage> { unreachable!() }
	}
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	c.sync_write(100, [SyncWriteData { motor_id: 1, data: Goal(1, 2) }, SyncWriteData { motor_id: 2, data: Goal(3, 4) }]).unwrap();
	let w = p.written();
	ok(w[0][7..w[0].len() - 2] == [0x83, 100, 0, 5, 0, 1, 1, 0, 0, 0, 2, 2, 3, 0, 0, 0, 4], &format!("{:?}", w[0]));
}
'''
