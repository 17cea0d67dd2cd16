#!/bin/bash
# Builds the symbolic execution engine and the support bitcode into $1.
set -e
OUT=${1:?}
SRC=$(cd "$(dirname "$0")" && pwd)
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
STAMP=$(cat "$SRC"/*.cpp "$SRC"/*.h "$SRC"/build.sh | sha256sum | cut -d' ' -f1)
if [ -f "$OUT/stamp" ] && [ "$(cat "$OUT/stamp")" = "$STAMP" ] && [ -x "$OUT/svsym" ] && [ -f "$OUT/support.bc" ]; then exit 0; fi
pids=()
for f in expr solver interp externs main; do
  g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -I$Z3/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -c "$SRC/$f.cpp" -o "$OUT/$f.o" &
  pids+=($!)
done
/usr/bin/clang++-18 -std=c++14 -O1 -Xclang -disable-llvm-passes -fno-vectorize -gline-tables-only -emit-llvm -c "$SRC/support.cpp" -o "$OUT/support.bc" &
pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ -o "$OUT/svsym" "$OUT"/{expr,solver,interp,externs,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -lgmpxx -lgmp -lpthread
echo "$STAMP" > "$OUT/stamp"
