#!/bin/bash
# Nothing to compile: parse every specification once, so that a broken toolchain shows.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
J=/opt/veriftools/tla
for f in spec/*.tla; do
  (cd spec && java -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")") > /tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; }
  if grep -q "\*\*\* Errors\|Fatal errors\|Could not" /tmp/verif-sany.$$; then cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; fi
done
rm -f /tmp/verif-sany.$$
echo "specifications parsed"
