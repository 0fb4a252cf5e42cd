#!/bin/bash
# builds the verifier engine into $1
set -eu
out=$(realpath -m "$1")
cd "$(dirname "$0")"
clang++-18 -O2 -g0 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -frtti engine.cpp -o "$out.tmp$$" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$out.tmp$$" "$out"
