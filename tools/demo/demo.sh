#!/bin/bash
# Builds demo.cpp against the library build.sh made in the current directory's _build and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -O1 -std=c++14 -w -mrdrnd -DBOOST_AVAILABLE=1 -DENABLE_RDRAND=1 -I"$d" -I"$r/include" -I"$r/include/common" -I"$r/_build/include/common" "$d/demo.cpp" "$r/_build/libqrack.a" -lpthread -o "$t/demo" || exit 8
cd "$t" || exit 9
timeout 240 ./demo
