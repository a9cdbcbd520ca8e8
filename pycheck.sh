#!/bin/bash
# pycheck.sh check ID ... | replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 WIMBD_REPO="${WIMBD_REPO:-/repo}"
SIM_STUB="$PWD/target/stub-$(sha256sum pysim/stub.c | cut -c1-16)"
if [ ! -x "$SIM_STUB" ]; then
  mkdir -p target
  gcc -O2 -Wall -o "$SIM_STUB.$$" pysim/stub.c && mv "$SIM_STUB.$$" "$SIM_STUB" || exit 2
fi
export SIM_STUB
exec python3-vt pysim/main.py "$@"
