PROPERTY = 'P17'
NEEDS = 'dropping a SyncReadBytes iterator in the middle while one of the outstanding replies does not arrive'
BREAKS = 'dropping stops at the first missing reply, so the remaining replies of the sync read are left on the bus'
EDITS = [('src/instructions/sync_read.rs', '''			self.client.read_status_response(self.count).ok();
''', '''			if self.client.read_status_response(self.count).is_err() {
				break;
			}
''')]
DEMO = '''
use dynamixel2::*;
use support::*;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 256], vec![0; 64]).unwrap();
	let mut bad = status(2, 0, &[3]);
	let n = bad.len();
	bad[n - 1] ^= 1;
	p.reply(&[status(1, 0, &[7]), bad, status(3, 0, &[9]), status(4, 0, &[9])].concat());
	let mut it = c.sync_read_bytes::<Vec<u8>>(&[1, 2, 3, 4], 100, 1).unwrap();
	ok(it.next().unwrap().unwrap().data == [7], "first");
	drop(it);
	// Everything has been consumed: waiting for another reply gives a timeout.
	ok(matches!(c.read_status_response(1), Err(ReadError::Io(_))), "replies are left over");
}
'''
