#!/bin/bash
# builds the extractor (libTooling) from the committed source
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/extract ] || [ engine/extract.cpp -nt build/extract ]; then
	clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include engine/extract.cpp -o build/extract.tmp \
		-L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
	mv build/extract.tmp build/extract
fi
echo "extractor ready"
