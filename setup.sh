#!/bin/bash
# Build the TLC overrides from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build/classes
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d build/classes java/*.java
bash tools/selftest.sh
echo "setup done"
