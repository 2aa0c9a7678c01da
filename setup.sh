#!/bin/bash
# verifies that the toolchain is there; checks build everything they need themselves
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
command -v java >/dev/null && command -v javac >/dev/null || exit 1
d=$(mktemp -d) && javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/HPReal.java; r=$?
rm -rf "$d"
exit $r
