#!/bin/bash
# Build the Real64 arithmetic overrides used by TLC.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "import sys; sys.path.insert(0,'harness'); import tlc; tlc.build()"
