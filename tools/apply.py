#!/usr/bin/env python3
"""apply.py < edits: applies edits as tryedit does, and leaves them (for scratch copies under ns.sh)"""
import sys
f = None
for part in ("\n" + sys.stdin.read()).split("\n####"):
    head, _, body = part.partition("\n")
    if head.strip():
        f = head.strip()
    if not body.strip("\n ="):
        continue
    old, _, new = body.rstrip("\n").partition("\n====")
    s = open("/repo/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open("/repo/" + f, "w").write(s.replace(old, new[1:]))
