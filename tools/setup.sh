#!/bin/bash
# Checks that the toolchain is there and that every specification parses; nothing is cached.
cd "$(dirname "$0")/../spec" || exit 1
command -v g++-9 java >/dev/null || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY *.tla > /tmp/verif_sany.$$ 2>&1
rc=$?
grep -iE "error|abort" /tmp/verif_sany.$$ && rc=1
rm -f "/tmp/verif_sany.$$"
exit $rc
