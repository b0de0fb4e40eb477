#!/bin/bash
# Builds and runs the demonstration beside this script against the built library. Exit 0: behaviour as promised.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'case "$T" in /tmp/demo.*) rm -rf "$T";; esac' EXIT
gcc -g -D_GNU_SOURCE -I/repo/include -I/repo/src/c "$D/demo.c" -o "$T/demo" /repo/_build/c/libiot.a -rdynamic -lyaml -ldl -lpthread -lm || exit 2
cd "$T" && timeout 120 ./demo
