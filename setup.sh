#!/bin/bash
# Builds the storage seam.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
gcc -O1 -fPIC -shared -Wall -U_FORTIFY_SOURCE -o "$here/build/vsim.so.$$" "$here/sim/shim.c" -ldl
mv -f "$here/build/vsim.so.$$" "$here/build/vsim.so"
