#!/bin/bash
# builds the executor into $1
set -e; cd "$(dirname "$0")"; O=$1; mkdir -p $O
g++ -std=c++11 -O2 -w -fpermissive -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -c sat.cpp -o $O/sat.o &
clang++ -O2 -g1 -std=c++20 -w -I/usr/lib/llvm-18/include exec.cpp -c -o $O/exec.o
wait; clang++ -o $O/irsym $O/exec.o $O/sat.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lminisat -lz3 -lpthread
