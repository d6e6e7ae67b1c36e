#!/bin/bash
# refac.sh [NAME...]: applies behaviour-preserving edits (tools/refactors) to a scratch copy of /repo each and runs all checks; they must stay quiet
cd /verif
for n in ${*:-$(ls tools/refactors)}; do
  n=${n%.txt}
  echo "== $n: $(tools/ns.sh python3 tools/tryedit.py ${P:-all} none < tools/refactors/$n.txt 2>&1 | grep -a 'exit 1\|UNDE\|type-check\|rror' | cut -c1-${W:-260} | head -${L:-12})"
done
