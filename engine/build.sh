#!/bin/bash
# Builds the analyser into $1 (default /verif/.build).
set -e
d=$(cd "$(dirname "$0")" && pwd); o=${1:-$d/../.build}; mkdir -p "$o"
if [ -x "$o/vg" ] && [ -z "$(find "$d" -name '*.[ch]pp' -newer "$o/vg")" ]; then exit 0; fi
t="$o/vg.tmp.$$"
g++ -std=c++20 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$d/vg.cpp" -o "$t" -L/usr/lib/llvm-18/lib -lLLVM-18
mv -f "$t" "$o/vg"
