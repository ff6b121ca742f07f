#!/bin/bash
# self-tests of the executor's term rewriting and bit-blasting (not part of the checks)
set -e; cd "$(dirname "$0")"; W=$(mktemp -d); trap "rm -rf $W" EXIT; ulimit -s unlimited
g++ -O2 -std=c++20 -w exprfuzz.cpp -o $W/ef
g++ -std=c++11 -O2 -w -fpermissive -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -c sat.cpp -o $W/sat.o
g++ -O2 -std=c++20 -w solvertest.cpp $W/sat.o -lminisat -lz3 -o $W/st
for i in 1 2 3 4; do $W/ef $i ${1:-20000} & done; wait
$W/st || true
