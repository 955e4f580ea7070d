#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
F="-std=gnu++17 -g -O0 -w -fopenmp -DEKAT_DEFAULT_BFB -DOMPI_SKIP_MPICXX -DKOKKOS_ENABLE_CXX17"
for d in core kokkos pack algorithm expression logging parser testing-support; do F="$F -I$PWD/src/$d"; done
g++ $F $(cat "$(dirname "$0")/flags" 2>/dev/null) "$(dirname "$0")/demo.cpp" -o "$D/demo" -lkokkoscore -ldl $(cat "$(dirname "$0")/libs" 2>/dev/null) && cd "$D" && timeout 120 ./demo
