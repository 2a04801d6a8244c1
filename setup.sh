#!/bin/sh
# Nothing to build: the checks import PyNite from /repo's working tree. This only confirms that they can.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c 'from harness import common, specs, refmodel, gen, oracle; print("ready")'
