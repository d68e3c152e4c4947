#!/bin/bash
# builds /verif/build/astdump if missing or older than its source
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/astdump ] || [ extractor/astdump.cpp -nt build/astdump ]; then
  t=build/astdump.tmp$$
  clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') \
    extractor/astdump.cpp -o $t -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv $t build/astdump
fi
