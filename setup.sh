#!/bin/sh
# nothing is built ahead of the checks: every check compiles what it needs from /repo's current tree
set -e
python3-vt -c "import z3, sympy, numpy, mpmath"
test -x /usr/bin/clang++-18 && test -x /usr/bin/g++
echo ok
