#!/bin/bash
# The framework is interpreted; nothing to build. Checks that the tools it needs are there.
set -e
cd "$(dirname "$0")"
command -v clang++ python3-vt cvc5 g++ >/dev/null
test -x /usr/lib/llvm-18/bin/opt
python3-vt -c 'import z3, engine.api'
mkdir -p evidence replay_out
