#!/bin/bash
# Checks build everything they need themselves; this only makes sure that the tools work.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
java -version 2>&1 | head -1
python3 --version
for m in spec/*.tla; do test -s "$m"; done
mkdir -p evidence replays
echo ready
