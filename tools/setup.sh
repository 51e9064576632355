#!/bin/bash
# Parses every specification module; nothing needs to be built ahead of the checks.
cd "$(dirname "$0")/../spec" || exit 1
T=$(mktemp -d)
for m in *.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$T/out" 2>&1 \
    || { cat "$T/out"; rm -rf "$T"; exit 1; }
done
rm -rf "$T"
python3 -m py_compile ../tools/*.py && rm -rf ../tools/__pycache__
echo "specifications parse"
