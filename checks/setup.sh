#!/bin/bash
# Checks that the tools needed are there; each check builds its own harness from /repo's tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
for t in g++ python3 git cmake; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
[ -d /usr/include/eigen3 ]
echo ready
