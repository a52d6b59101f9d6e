#!/bin/bash
# Builds the symbolic executor and warms the build caches for the current tree.
cd "$(dirname "$0")/.." && exec python3 tools/check.py --setup
