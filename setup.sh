#!/bin/bash
# nothing to install: every check compiles its harness and /repo/src on each run
set -e
g++ --version | head -1
python3 --version
mkdir -p "$(dirname "$0")/evidence"
