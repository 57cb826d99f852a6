PROPERTY = 'P03'
NEEDS = 'an instruction whose ID 0xFF starts the header pattern together with its first parameters (raw transfer)'
BREAKS = 'the instruction ID is not part of the stuffed region any more, a pattern that starts at the instruction ID is sent unstuffed'
EDITS = [('src/bus/mod.rs', 'let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;', 'let stuffed_body_len = 1 + bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE + 1..body_end], parameter_count)?;')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut c = Client::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	c.write_instruction(1, 0xFF, 4, |b| { b.copy_from_slice(&[0xFF, 0xFD, 1, 2]); Ok(()) }).unwrap();
	let w = p.written();
	ok(w[0][7..w[0].len() - 2] == [0xFF, 0xFF, 0xFD, 0xFD, 1, 2], "body is stuffed");
	ok(w[0][5] == 8, "length");
}
'''
