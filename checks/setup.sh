#!/bin/bash
# Build the harness from /repo's working tree and check that TLC runs.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 -c "
import sys; sys.path.insert(0, 'checks')
import core; print(core.build_harness())"
