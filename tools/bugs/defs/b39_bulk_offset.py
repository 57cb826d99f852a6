PROPERTY = 'P09'
NEEDS = 'a bulk write with an item of 256 or more bytes followed by another item'
BREAKS = 'the position of the next item is computed from the low byte of the length: the item overwrites the data of the one before it'
EDITS = [('src/instructions/bulk_write.rs', 'offset += 5 + data.len();', 'offset += 5 + usize::from(data.len() as u8);')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for n in [1usize, 255, 256, 300] {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 700]).unwrap();
		let w = [BulkWriteData { motor_id: 1, address: 2, data: vec![0x33u8; n] }, BulkWriteData { motor_id: 4, address: 5, data: vec![0x44u8; 2] }];
		c.bulk_write(&w).unwrap();
		let mut body = vec![0x93u8, 1, 2, 0, n as u8, (n >> 8) as u8];
		body.extend(vec![0x33; n]);
		body.extend([4, 5, 0, 2, 0, 0x44, 0x44]);
		ok(p.written() == [frame(0xFE, &body)], &format!("first item of {n} bytes"));
	}
}
'''
