#!/bin/bash
# Build the recording harness against /repo and parse the specification.
set -e
cd "$(dirname "$0")/.."
mkdir -p work evidence
(cd harness && CARGO_TARGET_DIR=/verif/work/target cargo build --release --offline --quiet)
cd spec
for m in HashRoll MC MCRoll MCRange MCParams Trace TraceRoll TraceRange; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > ../work/sany.$m.txt 2>&1 || { cat ../work/sany.$m.txt; exit 1; }
done
