#!/bin/sh
# builds the clang-based extractor into /verif/build
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -o "$here/build/cextract.tmp.$$" \
  "$here/extract/cextract.cpp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$here/build/cextract.tmp.$$" "$here/build/cextract"
