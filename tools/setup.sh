#!/bin/bash
# Builds the compiler driver and the LP routine (each check also builds them itself when they are missing).
set -e
cd "$(dirname "$0")/.."
python3 -c "
import sys; sys.path.insert(0, 'sa')
import extract
print(extract.build_driver(), extract.build_lp())
print(extract.extract('default'))"
