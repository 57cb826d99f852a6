PROPERTY = 'P28'
NEEDS = 'a bus on which data keeps arriving after the deadline has passed'
BREAKS = 'a deadline in the past is treated as zero time left: reads with data waiting succeed after the deadline, so the wait does not end'
EDITS = [('src/serial_port/serial2.rs', '.checked_duration_since(Instant::now())\n\t\t\t.ok_or(std::io::ErrorKind::TimedOut)?;', '.saturating_duration_since(Instant::now());')]
SH = open('/verif/tools/bugs/demo.sh').read().replace('[workspace]', 'serial2 = "*"\n[workspace]').replace('path = "$repo" }', 'path = "$repo", features = ["serial2"] }')
SH = SH[:SH.rindex('timeout 60')] + """timeout 60 python3 - "$work/target/debug/demo" <<EOF2
import os, pty, subprocess, sys, tty
m, s = pty.openpty(); tty.setraw(s)
p = subprocess.Popen([sys.argv[1], os.ttyname(s)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdout.readline()
os.write(m, b"abc")
p.stdin.write(b"go"+bytes([10])); p.stdin.flush()
sys.exit(p.wait(20))
EOF2
"""
DEMO = '''
use std::time::{Duration, Instant};
use dynamixel2::SerialPort;
fn main() {
	let mut a = serial2::SerialPort::open(std::env::args().nth(1).unwrap(), 57600).unwrap();
	let deadline = Instant::now();
	println!("open");
	let mut line = String::new();
	std::io::stdin().read_line(&mut line).unwrap();
	std::thread::sleep(Duration::from_millis(50));
	let mut buffer = [0; 8];
	let r = SerialPort::read(&mut a, &mut buffer, &deadline);
	match r {
		Err(e) if <serial2::SerialPort as SerialPort>::is_timeout_error(&e) => (),
		r => { eprintln!("FAILED: read after the deadline: {r:?}"); std::process::exit(1) },
	}
}
'''
