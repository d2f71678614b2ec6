#!/bin/bash
# Builds the AST exporter (offline; clang 18 libraries).
set -e
cd "$(dirname "$0")"
OUT=${1:-./inkdump}
clang++ -std=c++17 -O1 -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include inkdump.cc -o "$OUT.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$OUT.tmp.$$" "$OUT"
