#!/bin/bash
# builds the demonstration against the built library and runs it in a scratch directory; exit 0: property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-build-XXXXXX)
trap '[ -n "$T" ] && rm -rf -- "$T"' EXIT
R=$PWD
g++ -std=c++17 -O1 -w -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DTAG_PARSER_STATIC -I"$R/_build/shim" -I"$R" -I"$D" -isystem /usr/include/martchus-c++utilities "$D/demo.cpp" "$R/_build/libtagparser.a" -o "$T/demo" -lmartchus-c++utilities -lz -ldl -lpthread || exit 96
ulimit -c 0
timeout 200 "$T/demo"
