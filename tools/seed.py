#!/usr/bin/env python3
"""seed.py ID PROP MAIN.rs NEEDS BREAKS FILE <<< "old\n====\nnew"  (several edits separated by a line '####[ file]')
Makes /verif/seeded/ID from an edit, and shows whether the demonstration and the check see it."""
import json, os, shutil, subprocess, sys
ID, PROP, MAIN, NEEDS, BREAKS, FILE = sys.argv[1:7]
V = "/verif"; D = V + "/seeded/" + ID; W = "/tmp/seedw"
if not os.path.isdir(W):
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "origin"])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "origin/HEAD"])
f = FILE
for part in ("\n" + sys.stdin.read()).split("\n####"):
    head, _, body = part.partition("\n")
    if head.strip():
        f = head.strip()
    if not body.strip():
        continue
    old, new = body.rstrip("\n").split("\n====\n") if "\n====\n" in body else (body.rstrip("\n").rsplit("\n====", 1))
    s = open(W + "/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(W + "/" + f, "w").write(s.replace(old, new))
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
open(D + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
for n in ("demo.sh", "lib.toml", "demo.toml", "demo.lock"):
    shutil.copy(V + "/tools/seedkit/" + n, D)
shutil.copytree(V + "/stubs/askar-crypto", D + "/askar-crypto", ignore=shutil.ignore_patterns("target"))
shutil.copy(MAIN, D + "/main.rs")
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(D + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", D + "/demo.sh"], cwd=W, capture_output=True, text=True)
print("demo: unchanged %d, patched %d" % (a.returncode, b.returncode))
print((a.stdout + a.stderr)[-600:] if a.returncode else "", (b.stdout + b.stderr)[-500:])
subprocess.check_call(["git", "-C", "/repo", "apply", D + "/patch.diff"])
try:
    c = subprocess.run(["python3", "check.py", PROP], cwd=V, capture_output=True, text=True)
    print("check: exit", c.returncode, c.stdout[-700:])
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
