PROPERTY = 'P22'
NEEDS = 'an array with more than 256 elements'
BREAKS = 'the position of an encoded element wraps at 256: later elements overwrite the first ones'
EDITS = [('src/bus/data.rs', '&mut buffer[i * encoded_size..][..encoded_size]', '&mut buffer[usize::from(i as u8) * encoded_size..][..encoded_size]')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	use dynamixel2::bus::Data;
	let x: [u16; 300] = core::array::from_fn(|i| i as u16 * 3 + 1);
	let mut b = vec![0xEE; 604];
	x.encode(&mut b).unwrap();
	for i in 0..300 { ok(b[2 * i..2 * i + 2] == (i as u16 * 3 + 1).to_le_bytes(), &format!("element {i}")); }
	ok(b[600..] == [0xEE; 4], "the rest is left alone");
	ok(<[u16; 300]>::decode(&b[..600]).unwrap() == x, "round trip");
}
'''
