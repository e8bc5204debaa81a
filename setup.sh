#!/bin/bash
# builds the exploration programs and the FMUs under test
. "$(dirname "$0")/lib.sh"
cd "$HERE" || exit 2
mkdir -p "$B" evidence
make -s -C harness -j8 OUT="$B" || fail "harness does not build"
build_fmus fmu "-w -O2 -g"
build_importer
echo "setup done"
