#!/bin/bash
# builds devsym into $1
set -e
cd "$(dirname "$0")"
out=${1:-/verif/build/devsym}; mkdir -p "$(dirname "$out")"
h=$(cat exec.cpp builtins.h expr.h solver.h build.sh | sha256sum | cut -c1-32)
[ -x "$out" ] && [ "$(cat "$out.hash" 2>/dev/null)" = "$h" ] && exit 0
LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
g++ -std=c++17 -O2 -w -I"$($LC --includedir)" -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS exec.cpp -o "$out.tmp.$$" $($LC --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$out.tmp.$$" "$out"; echo $h > "$out.hash"
