#!/usr/bin/env python3
"""tryedit.py PROPS FILE <<< edits: applies an edit to /repo, runs checks (all without PROPS='all'), undoes it.  For refactoring experiments."""
import subprocess, sys
props, f = sys.argv[1], sys.argv[2]
try:
    for part in ("\n" + sys.stdin.read()).split("\n####"):
        head, _, body = part.partition("\n")
        if head.strip():
            f = head.strip()
        if not body.strip("\n ="):
            continue
        old, _, new = body.rstrip("\n").partition("\n====")
        new = new[1:]
        s = open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open("/repo/" + f, "w").write(s.replace(old, new))
    if props == "all":
        import json
        props = ",".join(c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"])
    from concurrent.futures import ThreadPoolExecutor
    def go(p):
        c = subprocess.run(["python3", "check.py", p, "-v"], cwd="/verif", capture_output=True, text=True)
        return p, c
    with ThreadPoolExecutor(6) as ex:
        for p, c in ex.map(go, props.split(",")):
            if not c.returncode:
                for x in [l for l in c.stdout.split("\n") if l.startswith('UNDE |')][:4]:
                    print("   ", x[:500])
            c.stdout = "\n".join(l for l in c.stdout.split("\n") if l[:4] not in ("PROV", "UNDE", "VIOL |"))
            print(p, "exit", c.returncode, c.stdout.strip().split("\n")[-1][:150] if not c.returncode else (c.stdout[-900:] + c.stderr[-600:]))
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
