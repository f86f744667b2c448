#!/bin/bash
# Builds every harness once against the current tree, which fills the Go build cache.
cd "$(dirname "$0")" || exit 1
python3 tools/prebuild.py
exit 0
