#!/bin/bash
# checks that the tools are there and that the specifications parse
set -e
cd "$(dirname "$0")/../spec"
mkdir -p ../evidence ../out
python3 -c 'import sys; sys.path.insert(0, "../harness"); import plan, check'
for m in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m") || { echo "$out"; exit 1; }
done
echo "specifications parse"
