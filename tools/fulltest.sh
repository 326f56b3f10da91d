#!/bin/bash
# compiles every gtest of the repository against the whole library (with the pool shim) and runs it
set -e
R=${KRATOS_REPO:-/repo}; O=/tmp/fulltest; mkdir -p $O
F="-std=c++17 -w -O0 -include cstdint -DINCLUDE_FILESYSTEM -I/verif/core/shim -I$R/src -I$R/extern/hgdb/include -I$R/extern/googletest/googletest/include"
for s in $R/src/*.cc $R/tests/*.cc; do
  b=$O/$(basename $s .cc).o
  echo "g++ $F -c $s -o $b || exit 255"
done | xargs -P 8 -I{} bash -c '{}'
g++ $O/*.o -o $O/all -lgtest -lgtest_main -lfmt -lstdc++fs -lpthread
cd $R/tests && $O/all "$@" 2>&1 | tail -${TAIL:-25}
cd $R && git status --short
