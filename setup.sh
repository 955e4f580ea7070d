#!/bin/bash
# nothing is prebuilt: every check compiles /repo's current tree itself.  Only make sure the tools are there.
set -e
for t in clang++ opt g++ lean cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
cd "$(dirname "$0")" && mkdir -p evidence .build && python3-vt -c "import z3; print('z3', z3.get_version_string())"
