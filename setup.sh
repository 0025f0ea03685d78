#!/bin/bash
# Nothing needs to be built ahead of the checks: each builds its driver and the
# tree under test itself. This verifies that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null; command -v go >/dev/null; command -v python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence build
echo setup ok
