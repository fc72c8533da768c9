#!/bin/bash
# builds the engine into $1
set -e
D=$1; S=$(cd "$(dirname "$0")"; pwd); mkdir -p "$D"
F="-std=c++17 -O1 -fPIC -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//')"
clang++ $F -c "$S/pass.cpp" -o "$D/pass.o" &
clang++ $F -c "$S/plugin.cpp" -o "$D/plugin.o" &
g++ -std=c++17 -O1 -w -fno-strict-aliasing -I"$S/overlay" -c "$S/runtime.cpp" -o "$D/runtime0.o" &
wait %1; wait %2; wait %3
clang++ -shared "$D/pass.o" "$D/plugin.o" -o "$D/vsym.so"
# the runtime keeps its own copies of every template instance: never the instrumented ones
ld -r --force-group-allocation "$D/runtime0.o" -o "$D/runtime1.o"
nm --defined-only "$D/runtime1.o" | awk '$2=="W"||$2=="V"||$2=="u"{print $3}' | grep -v '^vs_' > "$D/weak.txt" || true
objcopy --localize-symbols="$D/weak.txt" "$D/runtime1.o" "$D/runtime.o"
clang -O1 -w -fno-builtin -fno-vectorize -fno-slp-vectorize -fpass-plugin="$D/vsym.so" -c "$S/vslib.c" -o "$D/vslib.o" &
P=$!
clang++ -std=c++14 -O1 -w -I"$S/overlay" -fno-vectorize -fno-slp-vectorize -fpass-plugin="$D/vsym.so" -c "$S/vsxx.cpp" -o "$D/vsxx.o"
wait $P
touch "$D/.ok"
