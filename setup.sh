#!/bin/bash
# Nothing to install: every check builds what it needs from /repo. This only checks that the tools are there.
set -e
for t in clang++ g++ ninja python3; do command -v $t >/dev/null; done
cd "$(dirname "$0")" && mkdir -p evidence build
