PROPERTY = 'P14'
NEEDS = 'a bulk read through read_next_borrow in which one motor does not answer, so that the next reply comes early'
BREAKS = 'read_next_borrow takes the reply of a different motor as the answer'
EDITS = [('src/instructions/bulk_read.rs', 'crate::InvalidPacketId::check(response.packet_id(), motor_id)?;', 'if !self.bulk_read_data.iter().any(|data| data.motor_id == response.packet_id()) {\n\t\t\tcrate::InvalidPacketId::check(response.packet_id(), motor_id)?;\n\t\t}')]
NTH = {'src/instructions/bulk_read.rs': 1}
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.reply(&status(2, 0, &[5, 6]));
	struct Any;
	impl std::borrow::Borrow<Any> for [u8] { fn borrow(&self) -> &Any { &Any } }
	let reads = [BulkReadData { motor_id: 1, address: 0, count: 2 }, BulkReadData { motor_id: 2, address: 0, count: 2 }];
	let mut b = c.bulk_read_bytes_borrow::<Any>(&reads).unwrap();
	let r = b.read_next_borrow().unwrap();
	ok(matches!(r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(_)))), "reply of motor 2 is no answer of motor 1");
}
'''
