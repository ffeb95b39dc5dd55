#!/bin/sh
# builds the fact extractor (offline; clang 18's libraries are part of the sandbox)
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
mkdir -p ../build
g++ -O1 -std=c++17 -fno-rtti -w -I$L/include mzfacts.cpp -o ../build/mzfacts.tmp $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv ../build/mzfacts.tmp ../build/mzfacts
