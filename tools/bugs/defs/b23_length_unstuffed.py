PROPERTY = 'P01'
NEEDS = 'a message whose parameters contain the header pattern FF FF FD'
BREAKS = 'the length field counts the body before stuffing, the frame is malformed'
EDITS = [('src/bus/mod.rs', 'endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);', 'endian::write_u16_le(&mut buffer[5..], parameter_count as u16 + 3);')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	for data in [&[1u8, 2, 3][..], &[0xFF, 0xFF, 0xFD, 9], &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD]] {
		let p = Port::new();
		let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
		c.write_bytes(0xFE, 5, data).unwrap();
		let w = p.written();
		ok(w[0].len() == 7 + w[0][5] as usize, &format!("length field of {:?}", w[0]));
	}
}
'''
