#!/bin/sh
# Nothing to build ahead: checks generate and verify from /repo on every run.
set -e
cd "$(dirname "$0")"
command -v verus >/dev/null && command -v clang++-18 >/dev/null && python3 -c 'import json'
mkdir -p evidence
