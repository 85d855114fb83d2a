#!/bin/bash
# Builds the harness against /repo and checks that the specification parses.
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0, "lib"); import run; print(run.build())'
cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY GraphbenchTrace.tla | tail -1
