#!/bin/bash
# builds the engine into $1 (default: /verif/build/vfe)
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/vfe}"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$(dirname "$out")"
[ -x "$out" ] && [ "$out" -nt "$here/engine.cc" ] && [ "$out" -nt "$here/exec.inc" ] && [ "$out" -nt "$here/loops.inc" ] && [ "$out" -nt "$here/memo.inc" ] && [ "$out" -nt "$here/lia.inc" ] && exit 0
g++ -std=c++17 -O2 -w -fno-rtti -fexceptions -I$Z3/include $(/usr/lib/llvm-18/bin/llvm-config --cppflags) \
  "$here/engine.cc" -o "$out.tmp.$$" -L$Z3/lib -Wl,-rpath,$Z3/lib -l:libz3.so -L/usr/lib/llvm-18/lib -lLLVM-18 && mv "$out.tmp.$$" "$out"
