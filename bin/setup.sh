#!/bin/bash
# Offline sanity check of the toolchain and the specifications; builds nothing that checks depend on.
cd "$(dirname "$0")/../spec" || exit 1
for t in java g++ clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
tmp=$(mktemp -d) || exit 1
for f in *.tla; do
    java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 \
      || { cat "$tmp/out"; echo "SANY rejects $f"; exit 1; }
done
rm -rf "$tmp"
echo "specifications parse, tools present"
