"""X03: what an operation does depends on nothing but what it is given, and nothing of it stays behind.

An effect analysis over every function of the crate (closures and async bodies included): no call, and no function handed on as a
value, is of those that reach outside; no static that can change is read or written; no type of the crate holds state behind a
shared reference."""
import re

OUTSIDE = re.compile(
    r"^(std|core|alloc)::(fs|net|env|process|os|backtrace|thread|io::stdio|io::(_e?print|stdin|stdout|stderr|copy)"
    r"|time::(SystemTime|Instant)|panic::(set_hook|take_hook))(::|$)"
    r"|^(log|tracing|tracing_core|env_logger|tokio|async_std|reqwest|hyper|dirs|chrono|time|libc|mio|nix)::"
    r"|^futures(_executor|_util)?::(executor|task::SpawnExt)")
STATE = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|Once|Mutex|RwLock|Atomic\w+|LazyLock|LazyCell|Lazy|Sender|Receiver|Condvar|LocalKey)\b")
CONSTANT = re.compile(r"^(std::sync::(lazy_lock::)?LazyLock|std::sync::lazy_lock::LazyLock|lazy_static::lazy::Lazy|once_cell::sync::Lazy|lazy_static::\w+::Lazy)<(.*)>$")
ONCE = re.compile(r"^(std::sync::(once_lock::)?OnceLock|once_cell::sync::OnceCell)<(.*)>$")


def parts(x, fns, statics):
    """functions named and statics used in a body"""
    if isinstance(x, dict):
        if "path" in x and "args" in x:
            fns.append(x)
        if isinstance(x.get("static"), str):
            statics.append(x["static"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                parts(v, fns, statics)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == "tls" and isinstance(x[1], str):
            statics.append(x[1])
        for v in x:
            if isinstance(v, (dict, list)):
                parts(v, fns, statics)


def owner(c, i):
    o = c.P.insts[i]
    return "fn " + o["path"].replace("::{closure#0}", "")


def effects(ctx, rep):
    P = ctx.P
    stat = {s["path"]: s for s in P.d.get("statics", [])}
    users = {}
    for i, o in enumerate(P.insts):
        if not o or not o.get("local") or not o.get("body"):
            continue
        fns, sts = [], []
        parts(o["body"], fns, sts)
        w = owner(ctx, i)
        bad = None
        for f in fns:
            if OUTSIDE.search(f["path"]):
                bad = f["path"]
                break
        rep.judge("reaches nothing outside", w, bad is None, "it calls %s" % bad) if bad else rep.ok("reaches nothing outside", w)
        for s in sorted(set(sts)):
            users.setdefault(s, []).append((w, fns))
    for s in sorted(users):
        d = stat.get(s)
        for w, fns in users[s]:
            if d is None:
                # a static of another crate
                rep.unk("keeps nothing behind", w, "it uses %s" % s)
                continue
            t = d["ty"]
            if not d["mut"] and d["freeze"] and not d["thread_local"]:
                rep.ok("keeps nothing behind", w)
                continue
            m = CONSTANT.match(t)
            if m and not d["mut"] and not d["thread_local"] and not STATE.search(m.group(m.lastindex)):
                # made once, from nothing
                rep.ok("keeps nothing behind", w)
                continue
            m = ONCE.match(t)
            if m and not d["mut"] and not STATE.search(m.group(m.lastindex)):
                sets = [f for f in fns if re.search(r"Once(Lock|Cell)(::<.*>)?::(set|try_insert|get_or_init|get_or_try_init|get_mut_or_init)$", re.sub(r"<[^<>]*(<[^<>]*>)*[^<>]*>::", "::", f["path"])) or f["path"].rsplit("::", 1)[-1] in ("set", "get_or_init", "get_or_try_init", "try_insert")]
                given = False
                for f in sets:
                    if f["path"].rsplit("::", 1)[-1] in ("set", "try_insert"):
                        given = True
                    for a in f["args"]:
                        ty = P.types[a]
                        if ty["k"] == "closure" and captured(ty):
                            given = True
                if not given:
                    rep.ok("keeps nothing behind", w)
                    continue
            rep.bad("keeps nothing behind", w, "it uses the static %s, of type %s, which can change" % (s, t))
    for p in sorted(P.adts):
        a = P.adts[p]
        if not (a.get("local") or p.startswith(P.d["crate"] + "::")):
            continue
        hit = None
        for v in a["variants"]:
            for f in v["fields"]:
                t = P.tstr(f["ty"]) if isinstance(f["ty"], int) else str(f["ty"])
                if STATE.search(t):
                    hit = "%s: %s" % (f["name"], t)
        if hit:
            rep.bad("no hidden state in values", "type " + p, "member %s can change behind a shared reference" % hit)
        else:
            rep.ok("no hidden state in values", "type " + p)


def captured(ty):
    return bool(ty.get("upvars"))
