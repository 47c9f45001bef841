#!/bin/sh
# compiles the TLC overrides, parses the specification and enumerates the scenarios of seed 1
set -e
cd "$(dirname "$0")"
exec python3 harness/check.py --setup
