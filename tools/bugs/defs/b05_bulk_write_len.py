PROPERTY = 'P09'
NEEDS = 'a bulk write with data of at least 256 bytes for a motor that is not the last one'
BREAKS = 'the length field of the item is written as one byte; the other one keeps the content of the previous message'
EDITS = [('src/instructions/bulk_write.rs', 'write_u16_le(&mut buffer[3..], data.len() as u16);', 'write_u8_le(&mut buffer[3..], data.len() as u8);')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
fn main() {
	for (a, n) in [(100u16, 4usize), (612, 300), (1000, 600), (64, 512)] {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 16], vec![0; 2000]).unwrap();
		c.bulk_write(&[BulkWriteData { motor_id: 3, address: a, data: vec![1u8; n] }, BulkWriteData { motor_id: 4, address: a, data: vec![2u8; 1] }]).unwrap();
		let w = p.written();
		ok(w[0][11] as usize + w[0][12] as usize * 256 == n, &format!("length field for {n} bytes at {a}"));
	}
}
'''
