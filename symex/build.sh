#!/bin/bash
# build.sh OUT : builds the symbolic executor
set -e
cd "$(dirname "$0")"
exec g++ ${SX_OPT:--O2} -std=c++17 -w symex.cpp -o "$1" $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//') -fexceptions $(llvm-config-18 --ldflags) -lLLVM-18 -lgmpxx -lgmp
