#!/bin/bash
# builds astx into $1
set -e
cd "$(dirname "$0")"
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  astx.cpp -o "$1" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1
