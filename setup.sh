#!/bin/sh
# The checks compile what they need from /repo and sim/native themselves; this only
# verifies that the tool chain and the Python environment are there.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O2 -fPIC -shared -fno-strict-aliasing -o "$t/libsim.so" sim/native/disk.c sim/native/sched.c -ldl
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c 'import numpy, h5py, pyfftw, pystencils, scipy'
echo setup ok
