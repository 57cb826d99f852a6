PROPERTY = 'P02'
NEEDS = 'a message for which the checksum passes through one particular entry of the table'
BREAKS = 'one entry of the checksum table is wrong'
EDITS = [('src/checksum.rs', '0x8173, 0x0176, 0x017C, 0x8179,', '0x8173, 0x0176, 0x0178, 0x8179,')]
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	fn slow(data: &[u8]) -> u16 {
		let mut c = 0u16;
		for &b in data { c ^= (b as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x8005 } else { c << 1 }; } }
		c
	}
	for i in 0..=255u8 { let d = [1, i]; ok(slow(&d) == dynamixel2::checksum::calculate_checksum(0, &d), &format!("checksum of {d:?}")); }
}
'''
