#!/bin/bash
# the headers are compiled from a copy in which rank() is spelled as the installed Kokkos has it
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cp -r src "$D/src" && find "$D/src" -name '*.hpp' -exec sed -i 's/::rank()/::rank/g' {} +
F="-std=gnu++17 -g -O0 -w -fopenmp -DEKAT_DEFAULT_BFB -DOMPI_SKIP_MPICXX -DKOKKOS_ENABLE_CXX17"
for d in core kokkos pack algorithm expression logging parser testing-support; do F="$F -I$D/src/$d"; done
g++ $F $(cat "$(dirname "$0")/flags" 2>/dev/null) "$(dirname "$0")/demo.cpp" -o "$D/demo" -lkokkoscore -ldl $(cat "$(dirname "$0")/libs" 2>/dev/null) && cd "$D" && timeout 120 ./demo
