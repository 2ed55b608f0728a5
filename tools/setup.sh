#!/bin/bash
# Everything is interpreted; make sure the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
/opt/venv/bin/python -c 'import lxml, aiohttp, signxml'
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
for f in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1) || { echo "$out"; exit 1; }
done
echo setup ok
