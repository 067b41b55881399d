#!/bin/bash
# Nothing to compile: checks that the tools are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
tmp=$(mktemp -d) || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 \
    || { cat "$tmp/out"; rm -rf "$tmp"; exit 1; }
done
rm -rf "$tmp"
/opt/venv/bin/python -c 'import numpy, scipy, sklearn' || exit 1
echo "setup: $(ls *.tla | wc -l) specification modules parsed"
