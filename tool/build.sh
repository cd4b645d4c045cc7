#!/bin/bash
# Builds the fact extractor against the installed clang 18 shared libraries.
set -e
cd "$(dirname "$0")"
OUT="${1:-/verif/build}"
mkdir -p "$OUT"
if [ "$OUT/lmfacts" -nt lmfacts.cpp ]; then exit 0; fi
clang++-18 -DLMVERIF_INC="\"$PWD/include\"" -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cppflags) lmfacts.cpp -o "$OUT/lmfacts.tmp" \
    -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$OUT/lmfacts.tmp" "$OUT/lmfacts"
