#!/bin/bash
# mut.sh PROP FILE SEDEXPR...: tries one-line edits one at a time, shows what the check of PROP says
P=$1; F=$2; shift 2
for e in "$@"; do
  sed -i "$e" /repo/$F
  [ -z "$(git -C /repo diff --stat)" ] && echo "NO EFFECT: $e"
  echo "== $e"
  python3 /verif/check.py $P | tail -2 | cut -c1-${W:-300}
  python3 -c "
import json
d=json.load(open('/verif/evidence/$P.json'))['coverage']
for k in d:
    if 'undecided' in k and isinstance(d[k],list):
        for x in d[k][:4]: print('  UNK',str(x)[:${W:-400}])
"
  git -C /repo checkout -q -- .
done
