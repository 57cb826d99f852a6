PROPERTY = 'P23'
NEEDS = 'a release build that evaluates one static_buffer!() twice'
BREAKS = 'the check for the second use exists in debug builds only: in a release build two mutable references to the same buffer are handed out'
EDITS = [('src/bus/mod.rs', 'if USED.swap(true, Ordering::Relaxed) {', 'if USED.swap(cfg!(debug_assertions), Ordering::Relaxed) {')]
import os
SH = open('/verif/tools/bugs/demo.sh').read().replace('cargo build -q --offline', 'cargo build -q --offline --release').replace('target/debug', 'target/release')
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn get() -> &'static mut [u8] { dynamixel2::static_buffer!(16) }
fn main() {
	let a = get();
	let b = run(|| get().as_ptr() as usize);
	ok(b.is_none(), "second use panics");
	a[0] = 1;
}
'''
