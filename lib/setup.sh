#!/bin/bash
# Builds the harness once and parses the specifications: the checks rebuild both from the current trees.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash "$here/build.sh" "$d"
cd "$here/../spec"
for m in *.tla; do
  tla-sany "$m" > "$d/sany" 2>&1 && ! grep -q "^Parse Error\|^Semantic error\|^\*\*\* Errors" "$d/sany" || { cat "$d/sany"; exit 1; }
done
echo "ready"
