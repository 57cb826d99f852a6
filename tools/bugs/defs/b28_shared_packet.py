PROPERTY = 'P29'
NEEDS = 'a program that keeps a packet while it uses the device again'
BREAKS = 'the lifetime of a raw instruction is no longer tied to the device: a program that reads again while it still holds the first packet compiles, and the packet changes under it'
EDITS = [('src/device.rs', "pub fn read_raw_instruction_timeout(\n\t\t&mut self,\n\t\ttimeout: Duration,\n\t) -> Result<crate::bus::InstructionPacket<'_>, ReadError<SerialPort::Error>> {", "pub fn read_raw_instruction_timeout<'a>(\n\t\t&mut self,\n\t\ttimeout: Duration,\n\t) -> Result<crate::bus::InstructionPacket<'a>, ReadError<SerialPort::Error>>\n\twhere\n\t\tSerialPort: 'a,\n\t\tBuffer: 'a,\n\t{"), ('src/device.rs', 'let bus: &mut Bus<SerialPort, Buffer> = unsafe', "let bus: &'a mut Bus<SerialPort, Buffer> = unsafe")]
SH = '''
#!/bin/bash
# The program in main.rs uses the device while it holds a packet. It must not compile, and only for that reason.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 2
cp "$here"/*.rs "$work/src/" && cp "$repo/Cargo.lock" "$work/" || exit 2
cat > "$work/Cargo.toml" <<EOF2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dynamixel2 = { path = "$repo" }
[workspace]
EOF2
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
if cargo build -q --offline 2> out; then echo "FAILED: the program compiles"; exit 1; fi
grep -q "E0499" out || { cat out; exit 2; }
[ "$(grep -c '^error' out)" -le 2 ] || { cat out; exit 2; }
exit 0
'''
DEMO = '''
use dynamixel2::*;
use dynamixel2::instructions::*;
use support::*;
use std::time::Duration;
fn main() {
	let p = Port::new();
	let mut d = Device::with_buffers(p.clone(), vec![0; 64], vec![0; 64]).unwrap();
	p.feed(&frame(1, &[1])); p.feed(&frame(2, &[1]));
	let a = d.read_raw_instruction_timeout(Duration::from_millis(1)).unwrap();
	let _ = d.read_raw_instruction_timeout(Duration::from_millis(1));
	println!("{}", a.packet_id());
}
'''
