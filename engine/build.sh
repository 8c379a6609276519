#!/bin/bash
# builds the symbolic executor; usage: build.sh OUTPUT
set -e
cd "$(dirname "$0")"
out=${1:?}
g++ -O2 -std=c++17 -fno-exceptions -fexceptions $(llvm-config-18 --cppflags) expr.cpp symx.cpp -o "$out" $(llvm-config-18 --ldflags --libs irreader core support 2>/dev/null | sed 's/-lLLVM-18.*/-lLLVM-18/') -lz3
