#!/bin/bash
# Builds the extractor into /verif/.build (ignored by git).
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$HERE/../.build"
mkdir -p "$OUT"
SRC="$HERE/extract/extract.cpp"
if [ -x "$OUT/extract" ] && [ "$OUT/extract" -nt "$SRC" ] && [ "$(cat "$OUT/extract.sum" 2>/dev/null)" = "$(sha256sum < "$SRC")" ]; then
  exit 0
fi
TMP="$OUT/extract.tmp.$$"
clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$SRC" -o "$TMP" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 \
  -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$TMP" "$OUT/extract"
sha256sum < "$SRC" > "$OUT/extract.sum"
