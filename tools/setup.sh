#!/bin/sh
# Nothing to build ahead: every check compiles what it needs from /repo. This only checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in clang++ g++ c++filt cvc5 z3-new python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
python3-vt - <<'P'
import sys
sys.path.insert(0, 'engine')
sys.dont_write_bytecode = True
import llvm, solver, sym, build
print('ready')
P
