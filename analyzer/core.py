"""Running the analysis and deciding obligations about its results."""

import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from term import *
import term as TM
import interp
import models

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(V, ".cache")


class NotAnalysable(Exception):
    """the source does not type-check, or the toolchain is unavailable"""


def dump(crate="didcomm", feature=None):
    """MIR dump of the repository's current sources"""
    p = os.path.join(CACHE, "args.json")
    if not os.path.exists(p):
        import prepare
        prepare.main()
    cfg = json.load(open(p))
    if not os.path.exists(cfg["driver"]):
        subprocess.check_call([os.path.join(V, "setup.sh")])
        cfg = json.load(open(p))
    lines = cfg[crate]
    args = list(lines[-1])
    for f in feature or ():
        args += ["--cfg", 'feature="%s"' % f]
    with tempfile.TemporaryDirectory(prefix="mirdump") as tmp:
        for dep in lines[:-1]:
            # the crates it depends on, as they are now
            r = subprocess.run(["rustc", "+nightly"] + dep + ["--out-dir", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/repo")
            made = "lib%s%s.rmeta" % (dep[dep.index("--crate-name") + 1], [x for x in dep if x.startswith("extra-filename=")][0][15:])
            if not os.path.exists(os.path.join(tmp, made)):
                raise NotAnalysable(r.stdout[-3000:])
            args = [re.sub(r"=.*/" + re.escape(made) + "$", "=" + os.path.join(tmp, made), x) for x in args]
        out = os.path.join(tmp, "out.json")
        home = os.path.join(V, "shadow" + ("" if crate == "didcomm" else "-" + crate))
        env = dict(os.environ, LD_LIBRARY_PATH=cfg["lib"], MIRDUMP_OUT=out, CARGO_MANIFEST_DIR=home, CARGO_PKG_NAME=args[args.index("--crate-name") + 1],
                   CARGO_PKG_VERSION="0.4.1", CARGO_CRATE_NAME=args[args.index("--crate-name") + 1])
        r = subprocess.run([cfg["driver"]] + args + ["--out-dir", tmp], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/repo")
        if not os.path.exists(out):
            raise NotAnalysable(r.stdout[-3000:])
        d = json.load(open(out))
    if d.get("errors"):
        raise NotAnalysable(r.stdout[-3000:])
    return d


# ---------------------------------------------------------------- program access

class Ctx(object):
    def __init__(self, crate="didcomm"):
        self.d = dump(crate)
        self.P = interp.Prog(self.d)
        self.analysed = set()
        self.calls = 0
        self.events = 0
        self.notes = []
        self._runs = {}
        self.bindings = []       # other crates of the repository a rule looked into
        self.files = set()
        self.by_path = {}
        for k, i in enumerate(self.P.insts):
            if i.get("body") and i["kind"] == "fn" and i.get("local"):
                self.by_path.setdefault(models.norm(i["path"]), []).append(k)

    def adt(self, name):
        """an enum or struct of the crate, by its name (path suffix)"""
        c = [p for p, a in self.P.adts.items() if (p == name or p.endswith("::" + name)) and a.get("local")]
        if len(c) == 1:
            return c[0]
        c2 = [p for p in c if self.P.adts[p].get("vis") == "pub" or self.P.adts[p].get("vis") is True]
        if len(c2) == 1:
            return c2[0]
        return None

    def find_fn(self, name=None, self_ty=None, trait=None, argc=None, targs=None):
        """instances of a function: by method name, Self type (path suffix) and trait (path suffix)"""
        out = []
        for k, i in enumerate(self.P.insts):
            if not i.get("body") or i["kind"] != "fn" or not i.get("local"):
                continue
            if i["name"] != name:
                continue
            if self_ty is not None:
                s = i.get("self")
                if s is None:
                    continue
                s = self.P.tstr(s) if isinstance(s, int) else s
                s = re.sub(r"<.*", "", s)
                if not (s == self_ty or s.endswith("::" + self_ty)):
                    continue
            elif i.get("self") is not None and trait is None:
                continue
            if trait is not None:
                t = i.get("trait")
                if not t or not (t == trait or t.endswith("::" + trait)):
                    continue
            elif i.get("trait") and self_ty is not None:
                continue
            if targs is not None and not any(all(x in self.P.tstr(a) for x, a in zip(targs, i["args"])) for _ in (0,)):
                continue
            out.append(k)
        return out

    def run(self, inst, args=None, F=EMPTY, awaited=True, cuts=(), tie=None, peel=False):
        """Result of interpreting a function on the given arguments (by position); calls of the functions in cuts are left uninterpreted.
        tie: a &mut argument (by position) whose state each alternative of the result is paired with (Run.pairs)"""
        cuts = frozenset(cuts)
        key = (inst, tuple(sorted(args.items())) if args else None, F, cuts, tie, peel)
        r = self._runs.get(key)
        if r is None:
            ip = interp.Interp(self.P, models.Models)
            ip.cuts = cuts
            ip.peel = peel
            if tie is not None:
                ip.tie = ip.fid("root", self.P.insts[inst]["body"]["names"].get(str(tie)) or "arg%d" % tie)
            t, drops = time.time(), TM.DROPS[0]
            v, st = ip.run_root(inst, args, F)
            if v is not None and awaited and self.is_future(inst):
                v = ip.await_(st, v)
            r = self._runs[key] = Run()
            r.value = v if v is not None else BOT
            r.st = st
            r.ip = ip
            r.inst = inst
            r.events = ip.events
            r.notes = ip.notes
            r.path = self.P.insts[inst]["path"]
            r.span = self.P.insts[inst]["span"]
            r.secs = time.time() - t
            r.drops = TM.DROPS[0] - drops
            self.analysed |= ip.analysed
            self.calls += ip.calls
            self.events += len(ip.events)
            self.notes.extend(ip.notes)
        return r

    def is_future(self, inst):
        b = self.P.insts[inst]["body"]
        t = self.P.types[b["locals"][0]]
        s = t["s"]
        return t["k"] == "coroutine" or t["k"] == "alias" or "Future<" in s or "Future +" in s or s.endswith("Future")


class Run(object):
    def pairs(self):
        """(facts, result, tied argument) for each way the function can end"""
        for g, x in cases(self.ip.tied):
            e = ext(frozenset(f for f in self.st.F if f[0].op != "or"), g) if self.st.F is not None else None
            if e is not None:
                yield (e,) + x.a

    def after(self, n):
        """what a &mut argument holds when the function returns"""
        b = self.ip.P.insts[self.inst]["body"]
        name = b["names"].get(str(n)) or "arg%d" % n
        if self.st is None or self.st.F is None:
            return None
        return self.st.get(self.ip.fid("root", name), 0)


# ---------------------------------------------------------------- satisfiability of a fact set

def instances(F):
    """does some recorded non-existence contradict a recorded element?"""
    no, els, yes = [], [], []
    for a, b in F:
        if in_fact(a):
            e = a.a[0].a[0]
            if e.op != "elem":
                continue
            here = (a.a[1] == "Some") == b
            if here:
                els.append(e)
                if isinstance(e.a[1], tuple) and len(e.a[1]) == 3 and e.a[1][0] == "first":
                    yes.append(e)
            elif isinstance(e.a[1], tuple) and len(e.a[1]) == 3:
                no.append(e)
    for y in yes:
        # the chosen element passes its own test
        _, b2, G2 = y.a[1]
        g = subst_facts(G2, {b2: y})
        if g is None or any((a, not b) in F or conflicts(F, (a, b)) for a, b in g):
            return True
    for n in no:
        _, b, G = n.a[1]
        for e in els:
            if e.a[0] is n.a[0] and e is not n:
                g = subst_facts(G, {b: e})
                if g is not None and known(F, g):
                    return True
        for y in yes:
            if y.a[0] is n.a[0] and y is not n:
                _, b2, G2 = y.a[1]
                g = subst_facts(G, {b: b2})
                if g is not None and g <= G2:
                    return True
    if len(no) > 1 and propagate(F, no, els):
        return True
    for a, b in F:
        if a.op == "empty" and b:
            if a.a[0] in begun(F):
                return True
            for e in els:
                if e.a[0] is a.a[0]:
                    return True
    return lengths_clash(F)


def propagate(F, no, els):
    """do several non-existences together leave a recorded element nothing it could be?"""
    for e in els:
        rest = [subst_facts(n.a[1][2], {n.a[1][1]: e}) for n in no if n.a[0] is e.a[0] and e is not n]
        rest = [g for g in rest if g]
        G, grew = F, len(rest) > 1
        while grew:
            grew = False
            for g in list(rest):
                left = [f for f in g if not known(G, [f])]
                if not left:
                    return True
                if len(left) == 1:
                    rest.remove(g)
                    G = ext(G, TM.negfacts(left))
                    if G is None:
                        return True
                    grew = True
    return False


def known(F, g):
    """is all of g said by F, or by what its elements were chosen for"""
    for f in g:
        if f in F:
            continue
        a, b = f
        if a.op == "or" and b and any(known(F, d) for d in a.a[0]):
            continue
        for x in a.lv if a.op != "or" else ():
            if x.op == "elem" and isinstance(x.a[1], tuple) and len(x.a[1]) == 3 and (mk("is", mk("it", x), "Some", TM.ONCE), True) in F:
                h = subst_facts(x.a[1][2], {x.a[1][1]: x})
                if h and f in h:
                    break
        else:
            return False
    return True


def begun(F):
    """texts known to contain some non-empty constant"""
    out = set()
    for a, b in F:
        if a.op == "app" and b and a.a[0].split("::")[-1] in ("starts_with", "ends_with", "contains"):
            x, c = a.a[2][:2]
        elif a.op == "is" and a.a[1] == "Some" and b and a.a[0].op == "app" and a.a[0].a[0].split("::")[-1] in ("strip_prefix", "strip_suffix"):
            x, c = a.a[0].a[2][:2]
        else:
            continue
        if c.op == "c" and c.a[1] != "":
            out.add(x)
    return out


def lengths_clash(F):
    """no length satisfies what is known about one"""
    lo, hi, ne = {}, {}, {}

    def low(x, n):
        lo[x] = max(lo.get(x, 0), n)

    def high(x, n):
        hi[x] = min(hi.get(x, n), n)
    for a, b in F:
        if a.op == "empty":
            (high if b else low)(a.a[0], 0 if b else 1)
        elif a.op in ("lt", "eq"):
            x, y = a.a
            if a.op == "eq" and y.op == "len":
                x, y = y, x
            if x.op == "len" and y.op == "c" and y.a[0] == "int":
                n = y.a[1]
                if a.op == "lt":
                    high(x.a[0], n - 1) if b else low(x.a[0], n)
                elif b:
                    low(x.a[0], n)
                    high(x.a[0], n)
                else:
                    ne.setdefault(x.a[0], set()).add(n)
            elif a.op == "lt" and y.op == "len" and x.op == "c" and x.a[0] == "int":
                low(y.a[0], x.a[1] + 1) if b else high(y.a[0], x.a[1])
    for x in set(lo) | set(hi) | set(ne):
        l, h = lo.get(x, 0), hi.get(x)
        while l in ne.get(x, ()):
            l += 1
        if h is not None and l > h:
            return True
    return False


def sat_cases(F, limit=2048):
    """consistent disjunction-free expansions of F"""
    try:
        out = splits(F, limit)
    except OverflowError:
        raise Undecided("too many cases")
    return [G for G in out if not instances(G)]


class Undecided(Exception):
    pass


def sat(F, limit=20000):
    """is there a consistent disjunction-free expansion of F"""
    todo = [F]
    n = 0
    while todo:
        G = TM.pruned(todo.pop())
        n += 1
        if n > limit:
            raise Undecided("too many cases")
        o = TM.smallest_or(G)
        if o is None:
            if not instances(G):
                return True
            continue
        for d in o[0].a[0]:
            e = ext(G - {o}, d)
            if e is not None:
                todo.append(e)
    return False


# ---------------------------------------------------------------- equivalence of values

class Diff(object):
    def __init__(self, F, got, want, path):
        self.F, self.got, self.want, self.path = F, got, want, path


def canon_comp(s):
    src, e, g, v = s.a
    b = mk("elem", e.a[0], "c") if e.op == "elem" else e
    m = {e: b}
    g = subst_facts(frozenset(f for f in g if not (in_fact(f[0]) and f[0].a[0].a[0] is e)), m)
    return src, b, g, subst(v, m)


def truth(v, F):
    if v.op == "c" and v.a[0] == "bool":
        return v.a[1]
    if (v, True) in F:
        return True
    if (v, False) in F:
        return False
    if v.op == "is":
        c = conflicts(F, (v, True))
        if c:
            return False
    if v.op == "not":
        t = truth(v.a[0], F)
        return None if t is None else not t
    return None


def norm_segs(v, F, d=0):
    """segments of a list under facts F: known parts spliced in, parts known to be empty dropped, loops over known elements unrolled"""
    out = []
    for s in segs(v):
        if s.op == "one" or d > 4:
            out.append(s)
            continue
        src = simp(s.a[0], F)
        if truth(TM.empty(src), F) is True:
            continue
        if s.op == "all":
            if src.op == "list":
                out.extend(norm_segs(src, F, d + 1))
            else:
                out.append(mk("all", src))
            continue
        _, e, g, val = s.a
        if src.op == "list":
            parts = norm_segs(src, F, d + 1)
            names = tuple(str(k) for k in range(len(parts)))
            new = []
            for k, q in enumerate(parts):
                if q.op != "one":
                    new = None
                    break
                # which element of the literal list
                facts = ext(EMPTY, frozenset([(mk("is", e, str(k), names), True)]) if len(names) > 1 else EMPTY)
                gg = frozenset(f for f in g or () if not (in_fact(f[0]) and f[0].a[0].a[0] is e))
                w = simp(val, facts)
                m = {e: q.a[0]}
                gg = subst_facts(gg, m)
                w = subst(w, m)
                known = [truth(a, F) for a, b in gg] if gg is not None else [None]
                if gg is None or any(t is not None and t != b for t, (a, b) in zip(known, gg)):
                    continue
                if all(t is not None for t in known):
                    new.append(mk("one", w))
                else:
                    new = None
                    break
            if new is not None:
                out.extend(new)
                continue
        if src is not s.a[0]:
            s = mk("comp", src, e, g, val)
        out.append(s)
    return tuple(out)


BOOLOPS = ("eq", "is", "not", "empty", "lt", "or")


def differences(v, r, F=EMPTY, path="", out=None, limit=4):
    """places where value v is not the expected value r, under facts F"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    v, r = simp(v, F), simp(r, F)
    if v is r:
        return out
    if r.op == "anything" or v is BOT or r is BOT:
        return out
    if r.op == "pred":
        # expected value given as a predicate over the actual one
        if v.op == "alt":
            pass
        else:
            if not r.a[1].f(v, F):
                for G in sat_cases(F):
                    if not r.a[1].f(simp(v, G), G):
                        diff(out, G, v, r, path)
                        break
            return out
    if v.op == "alt":
        for g, w in v.a[0]:
            e = ext(F, g)
            if e is not None:
                differences(w, r, e, path, out, limit)
        return out
    if r.op == "alt":
        for g, w in r.a[0]:
            e = ext(F, g)
            if e is not None:
                differences(v, w, e, path, out, limit)
        return out
    # booleans
    tv, tr = (truth(v, F) if v.op in BOOLOPS or v.op in ("c", "app", "f", "sym") else None), (truth(r, F) if r.op in BOOLOPS or r.op in ("c", "app", "f", "sym") else None)
    if tv is not None and tr is not None:
        if tv != tr:
            diff(out, F, v, r, path)
        return out
    if isboolish(v) or isboolish(r):
        for b in (True, False):
            for fs in cases_bool(r, b):
                e = ext(F, fs)
                if e is None:
                    continue
                for fs2 in cases_bool(v, not b):
                    e2 = ext(e, fs2)
                    if e2 is not None:
                        diff(out, e2, v, r, path)
        return out
    if v.op == "adt" and r.op == "adt" and v.a[0] == r.a[0] and v.a[1] == r.a[1] and v.a[2] == r.a[2]:
        for n, x, y in zip(v.a[2], v.a[3], r.a[3]):
            differences(x, y, F, path + "." + n, out, limit)
        return out
    # unknown option / enum against a constructor
    for x, y in ((v, r), (r, v)):
        if x.op == "adt" and y.op != "adt":
            vs = VARIANTS.get(x.a[0]) or TM.ENUMS.get(x.a[0])
            if vs:
                for w in vs:
                    t = isv(y, w, vs)
                    for fs in cases_bool(t, True):
                        e = ext(F, fs)
                        if e is None:
                            continue
                        if w != x.a[1]:
                            diff(out, e, v, r, path)
                        else:
                            for n, z in zip(x.a[2], x.a[3]):
                                q = field(y, n, w)
                                p2 = path + "." + w + "." + n
                                if x is v:
                                    differences(z, q, e, p2, out, limit)
                                else:
                                    differences(q, z, e, p2, out, limit)
                return out
            if x.a[1] == x.a[0].split("::")[-1] or x.a[1] is None:
                # struct against an unknown of that type: field by field
                for n, z in zip(x.a[2], x.a[3]):
                    q = field(y, n)
                    if x is v:
                        differences(z, q, F, path + "." + n, out, limit)
                    else:
                        differences(q, z, F, path + "." + n, out, limit)
                return out
    if (v.op == "list" or r.op == "list"):
        for w, other in ((v, r), (r, v)):
            for sg in segs(w):
                if sg.op in ("all", "comp") and sg.a[0].op == "alt":
                    # case split on which list it is
                    for g, x in sg.a[0].a[0]:
                        e = ext(F, g)
                        if e is not None:
                            differences(v, r, e, path, out, limit)
                    return out
        a, b = norm_segs(v, F), norm_segs(r, F)
        if len(a) == len(b) and all(x.op == y.op for x, y in zip(a, b)):
            for k, (x, y) in enumerate(zip(a, b)):
                p2 = "%s[%d]" % (path, k)
                if x.op in ("one", "all"):
                    differences(x.a[0], y.a[0], F, p2, out, limit)
                else:
                    s1, e1, g1, v1 = canon_comp(x)
                    s2, e2, g2, v2 = canon_comp(y)
                    if s1 is not s2 or e1 is not e2:
                        diff(out, F, v, r, p2)
                        continue
                    for gg, hh in ((g1, g2), (g2, g1)):
                        e = ext(F, gg or EMPTY)
                        if e is None:
                            continue
                        for f in (hh or EMPTY):
                            if f in e:
                                continue
                            for n in sets_of(neg_one(f)):
                                e2_ = ext(e, n)
                                if e2_ is not None:
                                    diff(out, e2_, v, r, p2 + " (which elements)")
                    e = ext(F, g1 or EMPTY)
                    if e is not None:
                        differences(v1, v2, e, p2, out, limit)
            return out
        na, nb = mk("list", *a), mk("list", *b)
        if na is nb:
            return out
        # an empty unknown list
        diff(out, F, v, r, path)
        return out
    if v.op == r.op and v.op in ("app", "cat") and len(v.a) == len(r.a):
        if v.op == "app" and v.a[0] == r.a[0] and len(v.a[2]) == len(r.a[2]) and v.a[1] == r.a[1]:
            for k, (x, y) in enumerate(zip(v.a[2], r.a[2])):
                differences(x, y, F, path + "(" + str(k) + ")", out, limit)
            return out
        if v.op == "cat":
            for k, (x, y) in enumerate(zip(v.a, r.a)):
                differences(x, y, F, path + "(" + str(k) + ")", out, limit)
            return out
    # equal because the facts say so
    if (mk("eq", *sorted((v, r))), True) in F:
        return out
    diff(out, F, v, r, path)
    return out


def sets_of(fs):
    return [fs]


def isboolish(v):
    return v.op in BOOLOPS or (v.op == "c" and v.a[0] == "bool")


def diff(out, F, v, r, path):
    for G in sat_cases(F):
        v2, r2 = simp(v, G), simp(r, G)
        if v2 is r2 or (mk("eq", *sorted((v2, r2))), True) in G:
            continue
        out.append(Diff(G, v2, r2, path))
        return


class Pred(object):
    def __init__(self, f, text):
        self.f, self.text = f, text

    def __repr__(self):
        return "…"


def pred(f, text):
    return mk("pred", text, Pred(f, text))


ANY = mk("anything")

OPAQUE = ("loopv", "any", "undef", "phi")
FOREIGN = re.compile(r"^(core|alloc|std|hashbrown|rv:|un)")


def opaque_parts(*ts):
    """constructs the analysis has no account of, in the given terms"""
    out = set()
    seen = set()
    for t in ts:
        for x in walk(t, seen):
            if x.op in OPAQUE:
                out.add(x.op)
            elif x.op == "app" and (FOREIGN.match(x.a[0]) or x.a[0] in ("sort_by", "sort_by_key", "filter", "flatten", "scan", "map_while", "setd", "collect", "overflow", "un", "zip") or x.a[0].startswith(("out", "as "))):
                if x.a[0].startswith("out") and not FOREIGN.match(x.a[0].split(":", 1)[-1]):
                    continue
                out.add(x.a[0])
            elif x.op == "sym" and "#" in x.a[0]:
                out.add(x.a[0])
    return out


# ---------------------------------------------------------------- obligations

class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (status, rule, where, detail)
        self.notes = []

    def ok(self, rule, where, detail=""):
        self.items.append(("proved", rule, where, detail))

    def bad(self, rule, where, detail, key=None):
        self.items.append(("violated", rule, where, detail, key or (rule + " @ " + where)))

    def unk(self, rule, where, detail):
        self.items.append(("undecided", rule, where, detail))

    def judge(self, rule, where, good, detail, *terms, key=None):
        if good:
            self.ok(rule, where, "")
        else:
            op = opaque_parts(*[t for t in terms if t is not None])
            if op:
                self.unk(rule, where, detail + " [not followed: %s]" % ", ".join(sorted(op))[:200])
            else:
                self.bad(rule, where, detail, key)

    def same(self, rule, where, got, want, F=EMPTY, notes=(), key=None):
        """obligation: the analysed value equals the reference value"""
        try:
            ds = differences(got, want, F)
        except Undecided as e:
            self.unk(rule, where, str(e))
            return False
        if not ds:
            self.ok(rule, where)
            return True
        bad = []
        for d in ds:
            op = opaque_parts(d.got, *[a for a, _ in d.F])
            if op or notes:
                self.unk(rule, where, "cannot compare %s: %s [not followed: %s]" % (d.path, show(d.got, 300), ", ".join(sorted(op) + [str(n)[:80] for n in notes])))
            else:
                bad.append(d)
        if bad:
            d = bad[0]
            self.bad(rule, where, "%s is %s where %s is required, when %s" % (d.path or "the result", show(d.got, 600), show(d.want, 600), show(d.F, 1200)), key)
            return False
        return not ds
