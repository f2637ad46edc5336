#!/bin/sh
# builds the symbolic executor from the committed sources (also built on demand by run_check.py)
cd "$(dirname "$0")/.." || exit 1
mkdir -p build
python3 run_check.py --setup
