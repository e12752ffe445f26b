#!/bin/bash
# Compiles demo.cc against the built library (and the three library files the build leaves out for want of a newer Eigen) and
# runs it; exit 0: behaves, nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
printf 'template<typename I> void setFromSortedTriplets(const I& b, const I& e) { setFromTriplets(b, e); }\n' > "$tmp/plugin.h"
cxx() { /usr/bin/g++-12 -std=gnu++20 -O1 -DUNIX -DNDEBUG -w -include numeric -DEIGEN_SPARSEMATRIX_PLUGIN="\"$tmp/plugin.h\"" -I"$repo/cpp/eigen" -I"$repo/cpp/lib_moment" -isystem /usr/include/eigen3 "$@"; }
lib=$repo/cpp/lib_moment; objs=()
if ! grep -q NO_EXTRA "$here/demo.cc"; then
    for f in matrix/polynomial_matrix symbolic/polynomial_to_basis symbolic/rules/moment_rulebook_to_basis; do
        cxx -c "$lib/$f.cpp" -o "$tmp/$(basename $f).o" & objs+=("$tmp/$(basename $f).o")
    done
fi
cxx -c "$here/demo.cc" -o "$tmp/demo.o" & wait
cxx "$tmp/demo.o" "${objs[@]}" "$repo/_build/lib_moment.a" -lpthread -ldl -o "$tmp/demo" || exit 2
timeout 120 "$tmp/demo"
