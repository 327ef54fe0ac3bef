#!/bin/sh
# Nothing is installed; make sure the tools the checks use are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
command -v gcc >/dev/null
d=$(mktemp -d)
gcc -O1 -shared -fPIC -o "$d/vclock.so" rv/vclock.c
LD_PRELOAD="$d/vclock.so" /opt/venv/bin/python -B -c "import asyncz, sys; sys.path.insert(0, '.'); import rv.clock"
rm -rf "$d"
