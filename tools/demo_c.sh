#!/bin/bash
# usage in demo.sh copies: compiles the demo next to this script against one built variant and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
V=${VARIANT:-external}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
B=/repo/_build
gcc -std=gnu99 -O1 -w ${CF:-} -I$B/lib-$V/stage -I$B/src-$V $here/demo.c $B/lib-$V/simint/libsimint.a -fopenmp -lmvec -lm -o $t/demo
timeout 120 $t/demo
