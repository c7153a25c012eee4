#!/bin/bash
# Links demo.c with the library just built and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O1 -w -mno-red-zone -I "$here" -o "$t/demo" "$here/demo.c" "$PWD/target/debug/libiec61131std.a" -lpthread -ldl -lm || exit 3
cd "$t" && timeout 200 ./demo
