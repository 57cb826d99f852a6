PROPERTY = 'P16'
NEEDS = 'a typed registered write to the broadcast ID'
BREAKS = 'reg_write waits for a reply that never comes and fails with a timeout'
EDITS = [('src/instructions/reg_write.rs', 'self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {\n\t\t\twrite_u16_le(&mut buffer[0..], address);\n\t\t\tvalue.encode(&mut buffer[2..])\n\t\t})?;\n\t\tOk(read_response_if_not_broadcast(self, motor_id)?)', 'let response = self.transfer_single(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, 0, |buffer| {\n\t\t\twrite_u16_le(&mut buffer[0..], address);\n\t\t\tvalue.encode(&mut buffer[2..])\n\t\t})?;\n\t\tOk(response.try_into()?)')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.reply(&status(1, 0, &[]));
	ok(c.reg_write(1, 10, &5u16).is_ok(), "unicast");
	ok(c.reg_write(0xFE, 10, &5u16).is_ok(), "broadcast");
	ok(c.reg_write_bytes(0xFE, 10, &[5]).is_ok(), "broadcast bytes");
}
'''
