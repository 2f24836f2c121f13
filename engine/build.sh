#!/bin/sh
# builds the analyser into $1 (default: /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
LC=llvm-config-18; command -v $LC >/dev/null 2>&1 || LC=llvm-config
FL="$($LC --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//')"
for f in bits spec loader interp lens graph deps main; do
  g++ -O2 -march=x86-64-v2 -std=c++17 -w $FL -c "$here/$f.cpp" -o "$out/$f.o" & pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ -o "$out/vengine.tmp" "$out/bits.o" "$out/spec.o" "$out/loader.o" "$out/interp.o" "$out/lens.o" "$out/graph.o" "$out/deps.o" "$out/main.o" $($LC --ldflags --libs --system-libs) || g++ -o "$out/vengine.tmp" "$out"/*.o $($LC --ldflags) -lLLVM-18
mv "$out/vengine.tmp" "$out/vengine"
