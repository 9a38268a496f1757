#!/bin/sh
# Nothing to install; checks that the toolchain is there and the driver builds.
set -e
cd "$(dirname "$0")/.."
command -v tlc >/dev/null
exec python3 bin/selftest.py
