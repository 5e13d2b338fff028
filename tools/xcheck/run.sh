#!/bin/bash
# Development tool: compares the reference models of the harness with libprotobuf.
# tools/xcheck/run.sh [cases] [seed]
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
g++ -O1 -o "$d/pbref" "$here/pbref.cpp" -lprotobuf -lpthread || exit 2
"$here/../../harness/target/release/pf" xgen "${1:-3000}" "${2:-1}" "$d" || exit 2
"$d/pbref" <"$d/input" >"$d/actual"
python3 "$here/compare.py" "$d"
code=$?
rm -rf "$d"
exit $code
