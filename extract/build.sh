#!/bin/bash
# Builds the AST extractor into /verif/build (git-ignored).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
src=$here/extract.cpp
if [ -x "$out/oml-extract" ] && [ "$out/oml-extract" -nt "$src" ]; then exit 0; fi
LLVM=/usr/lib/llvm-18
g++ -O1 -std=c++17 $($LLVM/bin/llvm-config --cxxflags) -fno-rtti -w "$src" -o "$out/oml-extract.tmp.$$" \
  -L$LLVM/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$LLVM/lib
mv "$out/oml-extract.tmp.$$" "$out/oml-extract"
