#!/bin/bash
# Builds the fact extractor (a libTooling program) in /verif/build. Offline.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
out="$here/build/tgx"
src="$here/extract/tgx.cpp"
if [ -x "$out" ] && [ "$out" -nt "$src" ]; then exit 0; fi
tmp=$(mktemp "$here/build/tgx.XXXXXX")
g++ -O1 $(llvm-config-18 --cxxflags | sed 's/-std=c++17//') -std=c++17 -fno-rtti -w "$src" -o "$tmp" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
chmod +x "$tmp"
mv "$tmp" "$out"
