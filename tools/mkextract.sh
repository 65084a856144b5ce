#!/bin/bash
# rebuild the committed extractor binary after a change of extract.cpp
cd "$(dirname "$0")" && h=$(sha256sum extract.cpp | cut -c1-16) && rm -f ../build/extract-$h
g++ -O1 -s -std=c++17 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include extract.cpp -o extract-$h /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 &&
for f in extract-????????????????; do [ "$f" = "extract-$h" ] || rm -f "$PWD/$f"; done
