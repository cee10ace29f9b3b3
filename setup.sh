#!/bin/bash
# Builds the check binaries from the committed files and /repo's current tree (offline).
cd "$(dirname "$0")" || exit 2
./run.sh core build || exit 2
./run.sh full build || exit 2
exit 0
