#!/bin/bash
# Builds the symbolic execution engine (pass plugin + runtime) into $1.
set -e
E=$(dirname "$(realpath "$0")")
B=${1:-$E/../build}
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$B"
sum=$(cat "$E"/SxPass.cpp "$E"/runtime.cpp "$E"/expr.hpp "$E"/build.sh | sha256sum | cut -c1-32)
if [ -f "$B/stamp" ] && [ "$(cat "$B/stamp")" = "$sum" ]; then exit 0; fi
T=$(mktemp -d "$B/tmp.XXXXXX")
clang++-18 -std=c++17 -O1 -fPIC -shared -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$E/SxPass.cpp" -o "$T/SxPass.so" &
P1=$!
g++ -std=c++20 -O2 -g1 -w -I$Z/include -I"$E" -c "$E/runtime.cpp" -o "$T/runtime.o" &
P2=$!
wait $P1
wait $P2
mv -f "$T/SxPass.so" "$B/SxPass.so"
mv -f "$T/runtime.o" "$B/runtime.o"
rm -rf "$T"
echo "$sum" > "$B/stamp"
