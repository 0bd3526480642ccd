#!/bin/bash
# builds the analysis tools from the committed sources (offline)
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3-vt -c 'import sympy, networkx' 
test -x /usr/lib/llvm-18/bin/opt
echo setup ok
