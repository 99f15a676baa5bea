#!/bin/bash
# Builds the symbolic engine into /verif/build/engine (only when its sources changed).
set -euo pipefail
D=$(cd "$(dirname "$0")" && pwd)
B=${1:-$D/../build/engine}
mkdir -p "$B"
H=$(cat "$D"/*.cc "$D"/*.h | sha256sum | cut -d' ' -f1)
if [ -x "$B/sx" ] && [ "$(cat "$B/stamp" 2>/dev/null)" = "$H" ]; then exit 0; fi
pids=()
for f in expr solver mem lower exec; do
  g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c "$D/$f.cc" -o "$B/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$B"/{expr,solver,mem,lower,exec}.o -o "$B/sx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$B/sx.tmp" "$B/sx"
echo "$H" > "$B/stamp"
