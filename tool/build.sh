#!/bin/bash
# Builds the extractor (/verif/.build/tpx) from /verif/tool/extract.cc.
set -e
cd "$(dirname "$0")"
B=../.build
mkdir -p $B
g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cc -o $B/tpx.$$ -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib \
  -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv $B/tpx.$$ $B/tpx
