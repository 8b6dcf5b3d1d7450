#!/bin/bash
# Builds the fact extractor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
L=/usr/lib/llvm-18
if [ ! -x build/extract ] || [ tool/extract.cpp -nt build/extract ]; then
  g++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS tool/extract.cpp -o build/extract.tmp.$$ \
    -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$L/lib
  mv build/extract.tmp.$$ build/extract
fi
echo "extractor ready"
