#!/bin/sh
# builds the exporter into $1 (default /verif/.cache/exporter)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.cache/exporter}
mkdir -p "$(dirname "$out")"
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/exporter.cpp" -o "$out.$$" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out.$$" "$out"
