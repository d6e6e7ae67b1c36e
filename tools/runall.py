#!/usr/bin/env python3
"""runall.py [PROP…]: every rule of the properties in one process; one JSON line: {prop: [violated, undecided, first message]}."""
import json, os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(V, "analyzer"), V]
sys.setrecursionlimit(1000000)
threading.stack_size(1024 * 1024 * 1024)


def main():
    import checks.table as table
    from core import Report, NotAnalysable
    props = sys.argv[1:] or sorted(table.CHECKS)
    known = {k["key"] for k in json.load(open(os.path.join(V, "known_findings.json"))) if k.get("status") == "open"}
    out = {}
    try:
        ctx = table.Context()
    except NotAnalysable as e:
        print(json.dumps({"type-check": str(e)[-300:]}))
        return
    for p in props:
        rep = Report(p)
        for f in table.CHECKS[p]["rules"]:
            n = len(rep.items)
            try:
                f(ctx, rep)
            except NotAnalysable as e:
                rep.unk("type-check", "/repo", str(e)[-300:])
            except Exception as e:
                rep.unk("analysis", f.__name__, "%s: %s" % (type(e).__name__, e))
            if len(rep.items) == n:
                rep.bad("coverage", f.__name__, "nothing to decide")
        bad = [i for i in rep.items if i[0] == "violated" and i[4] not in known]
        und = [i for i in rep.items if i[0] == "undecided"]
        if bad or und:
            out[p] = [len(bad), len(und), ("%s [%s] %s" % ((bad or und)[0][2], (bad or und)[0][1], (bad or und)[0][3]))[:300]]
            if bad and os.environ.get("FIRST"):
                break
    print(json.dumps(out))


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(0)
