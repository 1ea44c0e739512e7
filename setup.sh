#!/bin/bash
# checks that the tools are there and that the reference model passes its own tests
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -O2 -std=c++11 -w "$here/harness/selftest.cpp" -o "$tmp/selftest"
"$tmp/selftest"
clang++ --version >/dev/null
