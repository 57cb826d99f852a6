PROPERTY = 'P27'
NEEDS = 'a build of the library without the std feature'
BREAKS = 'the check for a motor ID named twice exists only with std: without it the same bulk read is sent instead of being refused'
EDITS = [('src/instructions/bulk_read.rs', 'if reads[i].motor_id == reads[j].motor_id {', 'if cfg!(feature = "std") && reads[i].motor_id == reads[j].motor_id {')]
SH = open('/verif/tools/bugs/demo.sh').read().replace('path = "$repo" }', 'path = "$repo", default-features = false, features = ["alloc"] }')
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	let reads = [BulkReadData { motor_id: 1, address: 0, count: 1 }, BulkReadData { motor_id: 1, address: 2, count: 1 }];
	let r = run(|| c.bulk_read_bytes::<Vec<u8>>(&reads).is_ok());
	ok(r.is_none() && p.log().is_empty(), "duplicate is refused without std");
}
'''
