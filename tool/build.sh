#!/bin/bash
# builds the extractor into /verif/.build (git-ignored) unless it is up to date
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build}
mkdir -p "$out"
h=$(sha256sum "$here/extract.cpp" | cut -c1-16)
if [ -x "$out/gsx" ] && [ "$(cat "$out/gsx.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
tmp=$(mktemp "$out/gsx.XXXXXX")
clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
chmod +x "$tmp"; mv "$tmp" "$out/gsx"; echo "$h" > "$out/gsx.hash"
