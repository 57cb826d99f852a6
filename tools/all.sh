#!/bin/bash
# Runs all checks (or the given ones) one after another; prints the summary lines and problems only.
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "
import sys; sys.path.insert(0,'sa')
import props; print(*props.REG)")}; do
  python3 sa/check.py --property $p > /tmp/all.$p.log 2>&1; r=$?
  head -1 /tmp/all.$p.log | cut -c1-110; [ $r = 0 ] || { echo "  $p rc=$r"; grep -A1 -m4 "violated:" /tmp/all.$p.log | cut -c1-260; tail -2 /tmp/all.$p.log | cut -c1-200; }
done
