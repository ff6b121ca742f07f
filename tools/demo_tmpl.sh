#!/bin/bash
# Compiles demo.cpp against the library sources of the current directory and runs it in a scratch directory.
set -e
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -std=c++11 -O1 -DNDEBUG -w -I$R/include -I$R/_build/include $H/demo.cpp -o $D/demo $(ls -d $R/_build/lib/libsdsl.a) -L$R/_build/lib -L$R/_build/external/libdivsufsort/lib -ldivsufsort -ldivsufsort64
cd $D; timeout 250 ./demo
