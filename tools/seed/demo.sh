#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -g -w -I "$here" -I src -I _build/src "$here/demo.c" _build/src/libcal.a -lstdc++ -lm -o "$d/demo" || exit 2
timeout 120 "$d/demo" > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
exit $rc
