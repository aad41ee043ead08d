#!/bin/sh
# Builds what does not depend on /repo's tree and warms the Go build cache (in /verif/build).
cd "$(dirname "$0")/.." || exit 1
exec python3 bin/setup.py
