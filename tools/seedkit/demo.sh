#!/bin/bash
# Compiles the library's sources as they are in the current directory (/repo) with the demonstration, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$tmp"' EXIT
inc="-I$here -I$repo/src/wickrcrypto/include/wickrcrypto -I$repo/src/wickrcrypto/include -I$repo/src/protobuf/gen"
cd "$tmp" || exit 2
printf '%s\0' "$repo"/src/wickrcrypto/src/*.c "$repo"/src/protobuf/gen/*.c "$here"/shim.c "$here"/demo.c |
    xargs -0 -P 8 -n 4 gcc -c -g -O1 -w @FLAGS@ $inc || { echo "compile error"; exit 2; }
gcc @FLAGS@ *.o -o demo -lcrypto -lprotobuf-c -lcrypt -lpthread -lm || { echo "link error"; exit 2; }
mkdir work && cd work || exit 2
timeout 240 ../demo
