#!/bin/bash
# Nothing to build: parse every specification module once (syntax/semantic check).
cd "$(dirname "$0")/../spec" || exit 1
for f in *.tla; do
  out=$(tla-sany "$f" 2>&1) || { echo "$f"; echo "$out" | tail -20; exit 1; }
done
echo "specifications parsed"
