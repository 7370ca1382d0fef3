#!/bin/bash
# Nothing is kept between runs: every check extracts and builds what it needs from /repo's current tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
for t in python3-vt clang z3-new cvc5 cbmc goto-cc goto-instrument cmake ninja g++; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3-vt -c "import z3"
