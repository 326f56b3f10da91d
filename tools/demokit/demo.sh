#!/bin/bash
# builds the library from the sources in the current directory with the program beside this script and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-std=c++17 -w -O0 -include cstdint -DINCLUDE_FILESYSTEM -I$D -I$R/src -I$R/extern/hgdb/include"
for s in "$R"/src/*.cc "$D"/demo.cc; do echo "$s"; done |
  xargs -P 8 -I{} sh -c "g++ $F -c {} -o $T/\$(basename {} .cc).o || exit 255" || exit 2
g++ "$T"/*.o -o "$T/demo" -lfmt -lstdc++fs -lpthread || exit 2
cd "$T" && timeout 60 ./demo
