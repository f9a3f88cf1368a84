#!/bin/bash
# Builds the symbolic executor into /verif/build (setup_cmd).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3++.h ]; then ZI=$Z/include; ZL=$Z/lib; else ZI=/usr/include; ZL=/usr/lib/x86_64-linux-gnu; fi
if [ ! -x "$out/symx" ] || [ "$here/symx.cpp" -nt "$out/symx" ] || [ "$here/builtins.inc" -nt "$out/symx" ] || [ "$here/lin.inc" -nt "$out/symx" ] || [ "$here/flin.inc" -nt "$out/symx" ]; then
g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -I$ZI "$here/symx.cpp" -o "$out/symx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$ZL -lz3 -Wl,-rpath,$ZL
mv "$out/symx.tmp" "$out/symx"
fi
