#!/bin/bash
# Builds the poisoning NumPy allocator used by every check (offline, gcc only).
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
mkdir -p build
NPI=$($PY -c 'import numpy; print(numpy.get_include())')
PYI=$($PY -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
T=$(mktemp build/.so.XXXXXX)
gcc -O2 -fPIC -shared -Wall -Wno-unused-parameter -I"$PYI" -I"$NPI" native/poison.c -o "$T"
mv -f "$T" build/rfv_poison.so
