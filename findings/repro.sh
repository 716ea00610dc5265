#!/bin/bash
# bash repro.sh [srcdir]: build repro.cc with ASan+UBSan against a source tree and run each witness.
# Not a check (nothing in MANIFEST.json runs it): it is the concrete replay of the defects found statically.
S=${1:-/repo}/src; H=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang++ -w -std=gnu++17 -g -O1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=undefined $EXTRA -I$S -I$S/expr $H/repro.cc $(find $S -name '*.cc') -o $T/r || exit 2
for c in type_nibble cast_nibble const_decimal sub_string trunc_op trunc_varint trunc_double trunc_string varint_int32 align div_min mod_min substr_start substr_rev mid_overflow group_type leak_filter leak_project leak_agg leak_group leak_decode_filter leak_decode_aggs leak_decode_group copy; do
  timeout 20 $T/r $c >$T/o 2>&1; r=$?
  echo "$c rc=$r $(grep -m1 -E 'ERROR|runtime error|accepted|rejected|terminate|what' $T/o | cut -c1-150)"
done
