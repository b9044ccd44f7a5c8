#!/bin/bash
# Builds the symbolic executor (posym) into $1 (default /verif/build)
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build}
mkdir -p "$B/obj"
for f in expr mem solver decode posym; do
  ( g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c "$D/$f.cpp" -o "$B/obj/$f.o.tmp$$" && mv "$B/obj/$f.o.tmp$$" "$B/obj/$f.o" ) &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ "$B"/obj/{expr,mem,solver,decode,posym}.o -o "$B/posym.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$B/posym.tmp$$" "$B/posym"
