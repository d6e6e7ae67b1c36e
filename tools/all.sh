#!/bin/bash
# every check on the current tree, in parallel; prints only what is not clean
cd /verif
python3 -c 'import json;print("\n".join(c["property"] for c in json.load(open("MANIFEST.json"))["checks"]))' | xargs -P 6 -I{} sh -c 'o=$(python3 check.py {} 2>&1); r=$?; echo "{} exit $r $(echo "$o" | tail -1 | cut -c1-200) $(echo "$o" | grep -c UNDECIDED)"' | sort
