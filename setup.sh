#!/bin/bash
# Nothing to build ahead: every check compiles its harnesses and the code of /repo itself.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
for t in clang++-18 g++ avr-g++ c++filt /opt/veriftools/pyvenv/bin/python3; do
    command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }
done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, cvc5; print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)'
