#!/bin/bash
# Builds the engine from the committed sources into /verif/build (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build
key=$(cat engine/rfsym.cpp engine/expr.h engine/support.cpp setup.sh | sha1sum | cut -d' ' -f1)
if [ -x build/rfsym ] && [ -f build/support.bc ] && [ "$(cat build/key 2>/dev/null)" = "$key" ]; then exit 0; fi
/usr/bin/clang++-16 -std=c++2a -stdlib=libstdc++ -fPIC -pthread -O1 -Wno-everything -emit-llvm -c engine/support.cpp -o build/support.bc &
/usr/bin/clang++-18 -O2 -std=c++17 -fexceptions -Wno-everything -I/usr/lib/llvm-16/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
	engine/rfsym.cpp -o build/rfsym.new -L/usr/lib/llvm-16/lib -lLLVM-16 -lz3 -Wl,-rpath,/usr/lib/llvm-16/lib
wait
mv build/rfsym.new build/rfsym
echo "$key" > build/key
