"""No input makes the library panic.

Every function of the crate is interpreted on its own, on arbitrary arguments; calls of the crate's larger functions stay
uninterpreted (their results are arbitrary too).  Every place that can panic (unwrapping, indexing, slicing, unsigned subtraction,
an explicit panic) must be impossible under the facts of the path that leads there.  Where it is not and the function is
private, what its callers establish counts: they are interpreted again, this time through it."""
import re
from common import *
from errors import contains
import term as TM

LEAF = 40        # functions with fewer blocks and no loop are followed, not cut


def possible(e, assumed=()):
    """the facts under which this place panics (None: never)"""
    F = e.F
    if e.name == "char boundary":
        if at_boundary(e, F):
            return None
        for G in sat_cases(F):
            if not impossible_lengths(G) and not at_boundary(e, G):
                return G
        return None
    for a in assumed:
        F = assume(F, a, True) if F is not None else None
    if F is not None and e.cond is not None:
        F = assume(F, e.cond, False)
    if F is None or impossible_lengths(F):
        return None
    for G in sat_cases(F):
        if not impossible_lengths(G):
            return G
    return None


def at_boundary(e, F):
    """the place the text is cut at is known to lie between two characters"""
    v, k = e.subject, e.args[1]
    if any(isinstance(x, int) or x.op == "len" and x.a[0] is v for x in (k,)):
        return True
    for a, b in F:
        if b and k.op == "c" and a.op == "app" and last_name(a) in ("starts_with", "strip_prefix") and a.a[2][0] is v and a.a[2][1].op == "c":
            lit = str(a.a[2][1].a[1])
            if k.a[1] in [len(lit[:n].encode()) for n in range(len(lit) + 1)]:
                return True
    if k.op == "len" and any(b and a.op == "app" and last_name(a) == "starts_with" and a.a[2][0] is v and a.a[2][1] is k.a[0] for a, b in F):
        return True
    return False


def same_call(x, y):
    """the buffer a call wrote and the count it returned"""
    while x.op == "f":
        x = x.a[0]
    while y.op == "f":
        y = y.a[0]
    return x.op == "app" and y.op == "app" and x.a[0].startswith("out") and x.a[0].split(":", 1)[-1] == y.a[0] and x.a[2] == y.a[2]


def impossible_lengths(F):
    """the facts contradict what is known of lengths"""
    lo, hi = {}, {}
    for a, b in F:
        if a.op == "lt":
            x, y = a.a
            # encrypt_in_place returns how much of the buffer is ciphertext
            if x.op == "len" and b and y.op == "f" and same_call(x.a[0], y) and "encrypt_in_place" in show(y, 4000):
                return True
            if y.op == "len" and x.op == "c":
                n = x.a[1]
                if b:
                    lo[y.a[0]] = max(lo.get(y.a[0], 0), n + 1)
                else:
                    hi[y.a[0]] = min(hi.get(y.a[0], 1 << 62), n)
            elif x.op == "len" and y.op == "c":
                n = y.a[1]
                if b:
                    hi[x.a[0]] = min(hi.get(x.a[0], 1 << 62), n - 1)
                else:
                    lo[x.a[0]] = max(lo.get(x.a[0], 0), n)
        elif a.op == "eq" and len(a.a) == 2 and b:
            for x, y in (a.a, a.a[::-1]):
                if x.op == "len" and y.op == "c":
                    lo[x.a[0]] = max(lo.get(x.a[0], 0), y.a[1])
                    hi[x.a[0]] = min(hi.get(x.a[0], 1 << 62), y.a[1])
        elif a.op == "empty":
            if b:
                hi[a.a[0]] = 0
            else:
                lo[a.a[0]] = max(lo.get(a.a[0], 0), 1)
    return any(lo[x] > hi.get(x, 1 << 62) for x in lo)


UNDERSTOOD = ("is", "len", "empty", "lt", "eq")


def related(e, G):
    """facts about what is unwrapped or indexed, of which the analysis may not have drawn the consequence"""
    v = e.subject
    if v is None:
        return []
    if e.name == "char boundary" and not (e.args[1].op == "c"):
        # cut at a computed place
        return [(e.args[1], True)]
    subjects = set()
    for _, x in cases(v):
        subjects.add(x)
        while x.op == "f":
            x = x.a[0]
            subjects.add(x)
        if x.op == "app":
            subjects |= set(y for y in x.a[2] if y.op not in ("c", "sym"))
            subjects |= set(y for y in x.a[2] if y.op == "sym" and last_name(x) not in ("from_str", "json"))
        elif x.op in ("len", "elem", "idx", "slice", "it"):
            subjects.add(x.a[0])
    out = []
    for a, b in G:
        if a.op == "is" and a.a[0] in subjects:
            continue
        if e.cond is not None and a.op in ("lt", "empty", "eq") and all(x.op in ("len", "c") or x in subjects for x in a.a):
            continue
        if any(contains(a, s) for s in subjects if not (a.op == "is" and s.op in ("f", "sym"))):
            out.append((a, b))
    return out


def last_name(x):
    return x.a[0].rsplit("::", 1)[-1]


def units(ctx):
    return [k for k, i in enumerate(ctx.P.insts) if i.get("body") and i.get("local") and i["kind"] == "fn" and not i.get("derived")]


def is_leaf(ctx, k):
    b = ctx.P.insts[k]["body"]
    n = [x for x in b["blocks"] if x is not None]
    return len(n) < LEAF and not ctx.is_future(k)


def generated(ctx, e, i):
    """inside what wasm-bindgen generates (which panics wherever it does not run as WebAssembly)"""
    return any("::__wb" in p or "JsCast for" in p or "wasm_bindgen::" in p.split(" for ")[0] and "::_::" in p for p in [i["path"]] + [p for p, _ in e.stack or ()])


def never_fails(e):
    """library calls whose failure no input can bring about: writing a JSON value as text; starting a thread pool"""
    v = e.subject
    return v is not None and all(x.op == "app" and (last_name(x) in ("to_string", "to_vec") and "serde_json" in x.a[0] and x.a[1] and "serde_json::value::Value" in x.a[1][0]
                                                    or last_name(x) == "create" and "ThreadPool" in x.a[0]) for _, x in cases(v))


class Seen(object):
    """an event as it looks in the first round of the loops it is in"""
    def __init__(self, e, subject, args, cond):
        self.name, self.kind, self.stack, self.F = e.name, e.kind, e.stack, e.F
        self.subject, self.args, self.cond = subject, args, cond


def first_round(ip, e, G):
    """the same place as reached in the first round: what is carried round has its first value (None: not reached then)"""
    m = {p: x[0] for p, x in ip.phis.items() if p.op == "phi"}
    if not m:
        return None
    sub = lambda t: subst(subst(t, m), m) if isinstance(t, T) else t
    G = TM.subst_facts(G, m)
    G = TM.subst_facts(G, m) if G is not None else None
    if G is None or impossible_lengths(G):
        return None
    e = Seen(e, sub(e.subject), tuple(sub(a) for a in e.args), sub(e.cond))
    if e.cond is not None:
        G = assume(G, e.cond, False)
    if G is None:
        return None
    for H in sat_cases(G):
        if not impossible_lengths(H):
            return e, H
    return None


def free(ctx, rep, rule="ends without a panic", assumed=None):
    us = units(ctx)
    cut = frozenset(k for k in us if not is_leaf(ctx, k))
    callers = {}
    for k in us:
        r = ctx.run(k, cuts=cut - {k})
        for e in r.events:
            if e.kind == "cut" and e.inst is not None:
                callers.setdefault(e.inst, set()).add(k)
    places = {}      # (function, what) -> how decided
    work = [(k, frozenset()) for k in us]
    done = set()
    while work:
        k, through = work.pop(0)
        if (k, through) in done or len(done) > 4 * len(us) + 200:
            continue
        done.add((k, through))
        i = ctx.P.insts[k]
        r = ctx.run(k, cuts=cut - {k} - through)
        open_ = {}
        for e in r.events:
            if e.kind != "panic" or generated(ctx, e, i) or never_fails(e):
                continue
            key = (in_function(ctx, e, i), e.name)
            G = possible(e)
            if G is None:
                places.setdefault(key, [])
            else:
                open_.setdefault(key, []).append((e, G))
        for key, es in open_.items():
            up = [c for c in callers.get(k, ()) if c != k and c not in through] if i.get("vis") != "pub" else []
            if up and len(through) < 4:
                # left to the callers
                for c in sorted(up):
                    work.append((c, through | {k}))
                places.setdefault(key, [])
                continue
            places.setdefault(key, []).extend((i, e, G, r.notes, r.ip) for e, G in es)
    for (f, name), es in sorted(places.items(), key=lambda x: str(x[0])):
        w = "fn %s, %s" % (f, name)
        if not es:
            rep.ok(rule, w)
            continue
        worst = None
        for i, e, G, notes, ip in es:
            if any("phi" == x for x in opaque_parts(*([e.subject] if e.subject is not None else []), *[a for a, _ in G])):
                x = first_round(ip, e, G) if e.name != "char boundary" else None
                if x is not None:
                    e, G = x
            op = opaque_parts(*([e.subject] if e.subject is not None else []), *[a for a, _ in G])
            rel = related(e, G)
            what = "can panic (%s of %s), called through %s, when %s" % (name, show(e.subject, 200) if e.subject is not None else "", i["path"], show(G, 600))
            if op or rel or notes:
                why = "opaque: %s" % ", ".join(sorted(op)) if op else "facts about it: %s" % ", ".join(show(a, 80) for a, _ in rel[:3]) if rel else str(notes[0])[:80]
                worst = worst or ("unk", what + " [" + why + "]")
            else:
                worst = ("bad", what)
                break
        if worst[0] == "bad":
            rep.bad(rule, w, worst[1])
        else:
            rep.unk(rule, w, worst[1])
    for k in us:
        rep.ok("function looked through", "fn " + ctx.P.insts[k]["path"])


def in_function(ctx, e, i):
    """the innermost function of the crate on the way to the place"""
    here = set(x["path"] for x in ctx.P.insts if x.get("local") and x.get("body"))
    for p, _ in reversed(e.stack or ()):
        if p in here:
            return re.sub(r"(::\{[a-z]+#\d+\})+$", "", p)
    return i["path"]


def library(ctx, rep):
    free(ctx, rep)


def no_panics(rep, r, where_, rule="ends without a panic"):
    """nothing in this run panics"""
    worst = None
    for e in r.events:
        if e.kind != "panic" or never_fails(e):
            continue
        G = possible(e)
        if G is None:
            continue
        what = "it can panic: %s of %s when %s" % (e.name, show(e.subject, 200) if e.subject is not None else "", show(G, 400))
        if opaque_parts(*([e.subject] if e.subject is not None else []), *[a for a, _ in G]) or related(e, G):
            worst = worst or ("unk", what)
        else:
            worst = ("bad", what)
            break
    if worst is None:
        rep.ok(rule, where_)
    elif worst[0] == "bad":
        rep.bad(rule, where_, worst[1])
    else:
        rep.unk(rule, where_, worst[1])


def bindings(ctx, rep):
    import ffi
    for c in (ffi.uniffi(ctx, rep, "ends without a panic")[0], ffi.wasm(ctx)):
        free(c, rep)
