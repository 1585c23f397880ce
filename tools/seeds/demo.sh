#!/bin/bash
# run with the repository as working directory, after the build: 0 when the property holds, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=$PWD/_build/src; R=$PWD/reference
cp "$R/test/root_keystore.p12" "$T/"; export ROOT_KEYSTORE=$T/root_keystore.p12; cd "$T" || exit 2
I=""; for d in "$R"/src/*/include "$R"/src/*/include/internal "$R"/include "$R"/src/*/src "$R"/src/*/test; do [ -d "$d" ] && I="$I -I$d"; done
g++ -std=c++14 -w -g -I"$D" $I "$D/demo.cpp" -o "$T/demo" "$B/clientimpl/libsaclientimpl.a" "$B/taimpl/libtaimpl.a" "$B/util/libutil.a" -lcrypto -lyajl -lpthread || exit 3
timeout 200 "$T/demo" > "$T/out" 2>&1; E=$?
grep DEMO "$T/out"; [ $E -eq 0 ] && echo "demo passes"; exit $E
