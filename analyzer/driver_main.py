"""check.py's body: decide one property, write its evidence, report."""
import argparse
import importlib
import json
import os
import resource
import threading
import time
import traceback

import core
from core import V, NotAnalysable, Report, Ctx

LIMIT_S, AFTER_S, LIMIT_KB = 600, 60, 14 << 20


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    import checks.table as table
    spec = table.CHECKS[a.property]
    t0 = time.time()
    rep = Report(a.property)
    ctx = []
    known = known_findings(a.property)
    w = threading.Thread(target=decide, args=(a, table, spec, rep, ctx), daemon=True)
    w.start()
    found = None
    while True:
        w.join(0.5 if time.time() - t0 < 20 else 3)
        if not w.is_alive():
            break
        now = time.time()
        if found is None and any(i[0] == "violated" and i[4] not in known for i in list(rep.items)):
            found = now
        # an analysis that does not end answers nothing; one that has found a violation need not look for all of them
        why = None
        if now - t0 > LIMIT_S:
            why = "stopped after %d s" % LIMIT_S
        elif found and now - found > AFTER_S:
            why = "stopped %d s after the first violation" % AFTER_S
        elif resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > LIMIT_KB:
            why = "stopped: more than %d GB of memory" % (LIMIT_KB >> 20)
        if why:
            rep.unk("analysis", "time and memory", why)
            break
    return finish(a, spec, rep, ctx[0] if ctx else None, time.time() - t0)


def decide(a, table, spec, rep, out):
    try:
        ctx = table.Context()
        out.append(ctx)
        for f in spec["rules"]:
            before = len(rep.items)
            try:
                f(ctx, rep)
            except (NotAnalysable, KeyboardInterrupt):
                raise
            except Exception as e:
                if a.v:
                    traceback.print_exc()
                rep.unk("analysis", f.__name__, "analysis stopped: %s: %s" % (type(e).__name__, str(e)[:300]))
            if len(rep.items) == before:
                rep.bad("coverage", f.__name__, "the rule found nothing to decide")
    except NotAnalysable as e:
        rep.unk("type-check", "/repo", "the sources do not type-check, so nothing is decided: " + str(e)[-1500:])


def known_findings(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["key"]: k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"}


def finish(a, spec, rep, ctx, wall):
    known = known_findings(a.property)
    rep.items = list(rep.items)
    proved = [i for i in rep.items if i[0] == "proved"]
    und = [i for i in rep.items if i[0] == "undecided"]
    bad = [i for i in rep.items if i[0] == "violated"]
    new = [i for i in bad if i[4] not in known]
    hit = sorted(set(i[4] for i in bad if i[4] in known))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (a.property, known[k]["what"]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    replay = os.path.join(V, "evidence", a.property + ".violations.txt")
    rules = {}
    for i in rep.items:
        r = rules.setdefault(i[1], {"proved": 0, "violated": 0, "undecided": 0})
        r[i[0]] += 1
    level = spec["level"]
    crates = [ctx] + ctx.bindings if ctx else []
    cov = {
        "explanation": spec["explanation"],
        "technique": spec["technique"],
        "obligations": len(rep.items), "discharged": len(proved), "undecided": len(und), "known_findings": len(hit),
        "rules": rules,
        "analysed_functions": sorted(f for c in crates for f in c.analysed)[:400],
        "analysed_function_count": sum(len(c.analysed) for c in crates),
        "calls_interpreted": sum(c.calls for c in crates),
        "calls_leaving_the_crate": sum(c.events for c in crates),
        "bodies_in_program": sum(c.d.get("bodies") or 0 for c in crates),
        "checker_cmd": "python3 /verif/check.py " + a.property,
        "trusted_base": ["rustc type checking and MIR building", "models of std and of the external crates (analyzer/models.py)",
                         "the meaning of serde's attributes (analyzer/wire.py)"],
        "samples": [{"rule": i[1], "where": i[2]} for i in proved[:25]],
        "undecided_items": [{"rule": i[1], "where": i[2], "why": i[3][:600]} for i in und[:40]],
    }
    ev = {"property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED") or 1), "level": level,
          "coverage": cov, "wall_s": round(wall, 3),
          "violations": [{"rule": i[1], "where": i[2], "what": i[3][:1500]} for i in new]}
    with open(os.path.join(V, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for i in rep.items:
            print(i[0].upper()[:4], "|", i[1], "|", i[2], "|", i[3][:900])
    if und:
        print("UNDECIDED: %d of %d obligations (see evidence/%s.json)" % (len(und), len(rep.items), a.property))
    print("property %s: %d obligations, %d discharged, %d violated, %.1fs" % (a.property, len(rep.items), len(proved), len(bad), wall))
    if new:
        with open(replay, "w") as f:
            for i in new:
                f.write("%s\n  rule: %s\n  %s\n\n" % (i[2], i[1], i[3]))
        for i in new[:8]:
            print("  %s [%s]: %s" % (i[2], i[1], i[3][:400]))
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0
