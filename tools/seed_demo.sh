#!/bin/bash
# compiles demo.cc against the built library in the current directory and runs it
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
L=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so)
g++ -std=gnu++17 -O1 -DNDEBUG -DGLOG_CUSTOM_PREFIX_SUPPORT -DBOOST_IOSTREAMS_DYN_LINK -I"$R" -I"$R/_build" -isystem /usr/include/eigen3 -isystem /usr/include/lua5.2 -pthread -w \
  "$D/demo.cc" -o "$W/demo" "$R/_build/libcartographer.a" -lceres -lglog -llua5.2 -lboost_iostreams -lgflags -lcairo -lprotobuf -lz -lprometheus-cpp-core -lprometheus-cpp-pull $L 2>"$W/err" || { tail -5 "$W/err"; echo "demo does not compile"; exit 3; }
cd "$W" && timeout 120 ./demo
