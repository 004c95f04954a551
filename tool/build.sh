#!/bin/bash
# builds the syntax-tree dumper from tool/spx.cpp into /verif/build (git-ignored); does nothing when it is up to date
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build; mkdir -p "$out"
[ -x "$out/spx" ] && [ "$out/spx" -nt "$here/spx.cpp" ] && exit 0
L=$(llvm-config-18 --libdir)
clang++ -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$here/spx.cpp" -o "$out/spx.$$" \
	"$(ls $L/libclang-cpp.so* | head -1)" -L$L -lLLVM-18 -Wl,-rpath,$L
mv "$out/spx.$$" "$out/spx"
