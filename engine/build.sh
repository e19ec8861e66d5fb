#!/bin/bash
# build the symbolic executor (idempotent); usage: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
[ -x "$out/symx" ] && [ "$out/symx" -nt "$here/symx.cpp" ] && [ "$out/symx" -nt "$here/bdd.h" ] && exit 0
t=$(mktemp "$out/symx.XXXXXX")
g++ -O2 -std=c++17 -w -I"$(llvm-config-18 --includedir)" -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -fno-rtti "$here/symx.cpp" -o "$t" \
  $(llvm-config-18 --ldflags --libs core irreader analysis support --link-shared) -lz3
mv "$t" "$out/symx"
