#!/bin/bash
# Builds the exporter (extract/fextract.cc) against the installed clang 18 libraries.
set -e
cd "$(dirname "$0")"
mkdir -p build
h=$(cat extract/fextract.cc | sha256sum | cut -c1-20)
out=build/fextract-$h
[ -x "$out" ] && exit 0
/usr/lib/llvm-18/bin/clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include extract/fextract.cc \
    -o "$out.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
mv "$out.tmp.$$" "$out"
