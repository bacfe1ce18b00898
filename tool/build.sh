#!/bin/bash
# Builds the fact extractor into /verif/.build (ignored by git). Offline; uses the installed LLVM 18.
set -euo pipefail
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../.build"
mkdir -p "$out"
if [ "$out/extract" -nt "$here/extract.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18/lib
g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE "$here/extract.cpp" \
    -o "$out/extract.tmp.$$" "$L/libclang-cpp.so.18.1" "$L/libLLVM-18.so" -Wl,-rpath,"$L"
mv "$out/extract.tmp.$$" "$out/extract"
