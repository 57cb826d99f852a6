PROPERTY = 'P25'
NEEDS = 'a bulk read that names a motor twice, not next to each other'
BREAKS = 'only neighbouring entries are compared, so a duplicate further away is sent'
EDITS = [('src/instructions/bulk_read.rs', 'for j in i + 1..reads.len() {', 'for j in i + 1..reads.len().min(i + 2) {')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for ids in [&[1u8, 1][..], &[1, 2, 1], &[1, 2, 3, 2], &[5, 4, 3, 2, 5]] {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		let reads: Vec<_> = ids.iter().map(|&i| BulkReadData { motor_id: i, address: 0, count: 1 }).collect();
		let r = run(|| c.bulk_read_bytes::<Vec<u8>>(&reads).is_ok());
		ok(r.is_none() && p.log().is_empty(), &format!("duplicate in {ids:?}"));
	}
}
'''
