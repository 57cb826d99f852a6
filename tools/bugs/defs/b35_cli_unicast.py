PROPERTY = 'P26'
NEEDS = 'a CLI read with the number 254 as motor ID'
BREAKS = 'the command line tool treats 254 as an ordinary motor and broadcasts a read'
EDITS = [('dynamixel2-cli/src/bin/dynamixel2/options.rs', 'if id == dynamixel2::instructions::packet_id::BROADCAST {', 'if id > dynamixel2::instructions::packet_id::BROADCAST {')]
SH = '''
#!/bin/bash
# Runs the command line tool on one end of a pseudo terminal that only records.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export CARGO_TARGET_DIR="$work/target"
(cd "$repo" && cargo build -q --offline -p dynamixel2-cli) || exit 2
timeout 60 python3 - "$work/target/debug/dynamixel2" <<EOF2
import os, pty, subprocess, sys, time, select, tty
m, s = pty.openpty(); tty.setraw(s)
name = os.ttyname(s)
for i in ("254", "broadcast"):
    r = subprocess.run([sys.argv[1], "-s", name, "read8", i, "7"], capture_output=True, timeout=20)
    got = os.read(m, 100) if select.select([m], [], [], 0.2)[0] else b""
    if r.returncode == 0 or got: print("FAILED: read8", i, r.returncode, got); sys.exit(1)
EOF2
'''
DEMO = '''
fn main() {}
'''
