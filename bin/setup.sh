#!/bin/bash
# compiles the TLC override (java/CNum.java) and checks that the specifications parse
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, 'py'); sys.dont_write_bytecode = True
from engine import Engine
d = tempfile.mkdtemp()
print(Engine(d).java()); shutil.rmtree(d)
P
