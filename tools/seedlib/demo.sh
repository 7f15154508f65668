#!/bin/bash
# cwd: the repository. Builds the demonstration with the repository's current library sources and runs it.
S=$(cd "$(dirname "$0")" && pwd); R=$(pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D" || exit 2
gcc -w -g -O0 EXTRA -o demo "$S"/demo.c $(ls "$R"/src/oifitslib/*.c | grep -v oitable-demo) -I"$R"/src/oifitslib -I"$S" $(pkg-config --cflags --libs cfitsio glib-2.0) -lm || exit 2
timeout 60 ./demo "$R" >out 2>&1; rc=$?; tail -5 out; exit $rc
