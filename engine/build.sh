#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
g++ -O2 -g1 -std=c++17 -w -fexceptions $(llvm-config-18 --cppflags) "$D/gmsym.cpp" -o "$OUT/gmsym.tmp" $(llvm-config-18 --ldflags --libs core irreader bitreader linker passes scalaropts analysis support demangle) -lz3
mv "$OUT/gmsym.tmp" "$OUT/gmsym"
