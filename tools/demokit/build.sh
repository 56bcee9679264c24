#!/bin/bash
# build.sh OUT main.cpp [src files relative to src/ ...]   (cwd: repository)
# Compiles the named library sources in parallel and links OUT. The system
# Eigen (3.4) lacks a few things the library uses; a patched copy is made in a
# scratch directory, together with stand-ins for the third-party headers.
set -e
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
OUT=$1; MAIN=$2; shift 2
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/eigen"; cp -r /usr/include/eigen3/Eigen "$W/eigen/"
S="$W/eigen/Eigen/src"
sed -i 's/biggest_in_corner != Score(0)/!bool(biggest_in_corner == Score(0))/' "$S/LU/PartialPivLU.h"
sed -i 's/else if(tau!=Scalar(0))/else if(!bool(tau==Scalar(0)))/' "$S/Householder/Householder.h"
sed -i 's/lhs_alpha!=LhsScalar(1)/!bool(lhs_alpha==LhsScalar(1))/;s/rhs_alpha!=RhsScalar(1)/!bool(rhs_alpha==RhsScalar(1))/' "$S"/Core/products/TriangularMatrix*.h
F="-std=c++23 -O0 -UNDEBUG -Iinclude -Isrc -I$HERE/shim -isystem $W/eigen -include eigen_compat.hpp -w $DEMOFLAGS"
i=0; pids=""
for s in "$MAIN" src/util/pool.cpp $(for x in "$@"; do echo src/$x; done); do
  i=$((i+1)); clang++ $F -c "$s" -o "$W/$i.o" > "$W/$i.log" 2>&1 & pids="$pids $!"
done
ok=1; for p in $pids; do wait $p || ok=0; done
if [ $ok = 0 ]; then cat "$W"/*.log | grep -E "error" | head -20; exit 3; fi
clang++ $DEMOFLAGS "$W"/*.o -o "$OUT"
