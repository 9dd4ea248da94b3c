#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
LC=llvm-config-18; command -v $LC >/dev/null || LC=/usr/lib/llvm-18/bin/llvm-config
FL="-O2 -g0 -std=c++17 $($LC --cppflags) -fno-rtti -Wno-deprecated-declarations"
objs=""
for f in expr solver prep exec exec2 ext main instrument; do
  o="$OUT/$f.o"; objs="$objs $o"
  if [ ! -f "$o" ] || [ -n "$(find "$D" -name '*.h' -newer "$o" -print -quit)" ] || [ "$D/$f.cpp" -nt "$o" ]; then g++ $FL -fexceptions -c "$D/$f.cpp" -o "$o" & fi
done
wait
g++ -o "$OUT/symex.tmp" $objs $($LC --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$OUT/symex.tmp" "$OUT/symex"
