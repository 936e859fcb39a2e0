#!/bin/sh
# Nothing is built ahead: every check rebuilds from /repo.  This confirms that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
for t in clang++ llvm-link-18 opt-18 g++ python3-vt cvc5 z3; do
    command -v $t >/dev/null 2>&1 || echo "missing tool: $t"
done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
