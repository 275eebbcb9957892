#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
CXX=/usr/bin/g++
FL="-std=c++17 -O2 -g1 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE"
$CXX $FL -c "$here/expr.cpp" -o "$out/expr.o" & p1=$!
$CXX $FL -c "$here/solver.cpp" -o "$out/solver.o" & p2=$!
$CXX $FL -c "$here/vsym.cpp" -o "$out/vsym.o" & p3=$!
wait $p1; wait $p2; wait $p3
$CXX -o "$out/vsym.tmp" "$out/expr.o" "$out/solver.o" "$out/vsym.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$out/vsym.tmp" "$out/vsym"
