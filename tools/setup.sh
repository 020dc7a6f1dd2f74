#!/bin/bash
# Nothing is prebuilt: every check builds what it needs from /repo's working tree. This only verifies the toolchain.
set -e
command -v java >/dev/null && command -v g++ >/dev/null && command -v python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
echo "toolchain present"
