#!/bin/bash
# usage: demo.sh TREE  -- builds demo.c with TREE's library sources and runs every case
S=$(dirname "$(readlink -f "$0")"); T=$1; D=$(mktemp -d); cd "$D" || exit 2
gcc -w -g -o demo "$S"/demo.c $(ls $T/src/oifitslib/*.c | grep -v demo) -I$T/src/oifitslib $(pkg-config --cflags --libs cfitsio glib-2.0) -lm || exit 2
for n in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do ./demo $n >out 2>&1; echo "case $n: exit $?"; done
rm -rf "$D"
