"""Where values come from: terms rewritten under what is known, so that one provenance has one form."""
import re
from common import *
from envelope import RES, OPT, is_ok, is_err, okof, urlsafe, walk_all, apps
import term as TM
import wire

URL = "b64url"
CONTENT = ("rust", )


def someof(x):
    return field(x, "0", "Some")


def A(name, *xs, types=()):
    return mk("app", name, tuple(types), tuple(xs))


def last(n):
    return n.split("::")[-1]


def tname(s):
    """a type's own name: path, lifetimes and type arguments left out"""
    s = s.lstrip("&").strip()
    s = re.sub(r"<.*", "", s)
    return s.split("::")[-1].strip()


_size = {}


def size(t):
    n = _size.get(t)
    if n is None:
        n = _size[t] = sum(1 for _ in walk(t))
    return n


def known(name):
    n = last(name)
    return n


PARTS = ("split", "splitn", "split_once", "contains", "tail", "find")
CUT_AT = (".", ":")


def seps(x):
    """the separator, if texts cut at it are told in parts"""
    return S(str(x.a[1])) if x.op == "c" and x.a[0] in ("str", "char") and str(x.a[1]) in CUT_AT else None


_choices, _same_choice = {}, {}


def implies(H, K):
    for f in K:
        if f in H:
            continue
        e = ext(H, TM.neg_one(f))
        if e is not None and sat(e):
            return False
    return True


def same_choice(x):
    """one term for the choices of the same element, however the condition is put"""
    r = _same_choice.get(x)
    if r is None:
        _same_choice[x] = r = x
        which, b, H = x.a[1]
        if any(a.op == "or" for a, _ in H):
            known = _choices.setdefault((x.a[0], which), [])
            for y in known:
                K = subst_facts(y.a[1][2], {y.a[1][1]: b})
                if K is not None and implies(H, K) and implies(K, H):
                    r = y
                    break
            else:
                known.append(x)
        _same_choice[x] = r
    return r


class Canon(object):
    """F: a disjunction-free set of facts

    A text cut at dots or colons, however it is cut (split, splitn, split_once, an iterator moved on), is told in parts of one list, split(text, "."), of which F
    gives bounds on the length."""

    def __init__(self, F):
        self.rep = {}
        self.single = set()
        self.memo = {}
        self.F = F
        self.clash = False
        self.lens = {}
        self.kinds = {}
        self.seen = set()
        facts = F
        for _ in range(12):
            self.memo = {}
            changed = self.counts()
            for a, b in F:
                if b and a.op == "is" and unit_kind(a.a[0]):
                    x = self.n(a.a[0])
                    if x not in self.kinds:
                        self.kinds[x] = (a.a[1], a.a[2])
                        self.memo = {}
                        changed = True
            for a, b in F:
                if in_fact(a):
                    continue
                x = self.n(a)
                if x.op == "c":
                    if x.a[1] != b:
                        self.clash = True
                    continue
                if x.op == "not":
                    x, b = x.a[0], not b
                if x.op == "eq" and b:
                    changed |= self.union(*x.a)
                if x.op == "is" and b and x.a[0].op == "app" and x.a[0].a[0] == "split_once" and (x, b) not in self.seen:
                    self.seen.add((x, b))
                    self.memo = {}
                    changed = True
            if not changed:
                break
        out = []
        for a, b in F:
            if in_fact(a):
                e = a.a[0].a[0]
                here = (a.a[1] == "Some") == b
                if e.op == "elem" and self.n(e.a[0]) in self.single:
                    if not here and isinstance(e.a[1], tuple) and len(e.a[1]) == 3:
                        g = subst_facts(e.a[1][2], {e.a[1][1]: index(e.a[0], C("int", 0))})
                        if g is not None:
                            g = frozenset((p, q) for p, q in ((self.n(p), q) for p, q in g) if not (p.op == "c" and p.a[1] == q))
                            if not g:
                                self.clash = True
                            else:
                                out.extend(negfacts(g))
                    continue
                if e.op == "elem":
                    # the choice itself is kept, on the list as it is known
                    x = mk("elem", self.n(e.a[0]), self.tag(e.a[1]))
                    if isinstance(x.a[1], tuple) and len(x.a[1]) == 3:
                        x = same_choice(x)
                    out.append((mk("is", mk("it", x), "Some" if here else "None", TM.ONCE), True))
                    continue
            out.append((self.n(a), b))
        try:
            self.G = None if self.clash else ext(EMPTY, frozenset((a, b) for a, b in out if not (a.op == "c" and a.a[1] == b)))
        except Exception:
            self.G = None
        if self.G is not None and not sat_cases(self.G):
            self.G = None

    def counts(self):
        """bounds on the lengths of lists of parts"""
        lens, no = dict(self.lens), {}
        for a, b in self.F:
            if in_fact(a):
                continue
            a = self.n(a)
            if a.op == "not":
                a, b = a.a[0], not b
            if a.op == "more":
                lo, hi = lens.get(a.a[0], (1, 10 ** 6))
                lens[a.a[0]] = (max(lo, a.a[1] + 1), hi) if b else (lo, min(hi, a.a[1]))
            elif a.op == "count":
                lo, hi = lens.get(a.a[0], (1, 10 ** 6))
                if b:
                    lens[a.a[0]] = max(lo, a.a[1]), min(hi, a.a[1])
                else:
                    lens.setdefault(a.a[0], (lo, hi))
                    no.setdefault(a.a[0], set()).add(a.a[1])
        for L, ks in no.items():
            lo, hi = lens[L]
            while lo in ks:
                lo += 1
            while hi in ks:
                hi -= 1
            lens[L] = lo, hi
        if any(lo > hi for lo, hi in lens.values()):
            self.clash = True
        if lens != self.lens:
            self.lens = lens
            self.memo = {}
            return True
        return False

    def start(self, t, sep):
        """(text, how many parts precede) for what is left of a text after some parts"""
        if t.op == "app" and t.a[0] == "rest" and t.a[2][2] is sep:
            return t.a[2][0], t.a[2][1].a[1]
        return t, 0

    def plist(self, t):
        """(list of parts, how many were taken off it, at most how many are left) for a list of parts"""
        if t.op == "app" and t.a[0] == "split" and seps(t.a[2][1]):
            x, k = self.start(t.a[2][0], seps(t.a[2][1]))
            return A("split", x, seps(t.a[2][1])), k, None
        if t.op == "app" and t.a[0] == "splitn" and len(t.a[2]) == 3 and seps(t.a[2][1]) and t.a[2][2].op == "c" and t.a[2][2].a[1] > 0:
            x, k = self.start(t.a[2][0], seps(t.a[2][1]))
            return A("split", x, seps(t.a[2][1])), k, t.a[2][2].a[1]
        if t.op == "app" and t.a[0] == "tail":
            r = self.plist(t.a[2][0])
            return r and (r[0], r[1] + 1, r[2] and r[2] - 1)
        return None

    def part(self, L, k):
        return index(L, C("int", k))

    def left(self, L, k):
        """the text from part k on"""
        if k == 0:
            return L.a[2][0]
        if self.lens.get(L, (1, 10 ** 6))[1] == k + 1:
            return self.part(L, k)
        return A("rest", L.a[2][0], C("int", k), L.a[2][1])

    def more(self, L, k):
        """are there more than k parts"""
        lo, hi = self.lens.get(L, (1, 10 ** 6))
        return TRUE if lo > k else FALSE if hi <= k else mk("more", L, k)

    def parts(self, x):
        if x.op == "more":
            return x
        if x.op == "count":
            lo, hi = self.lens.get(x.a[0], (1, 10 ** 6))
            return TRUE if lo == hi == x.a[1] else FALSE if not lo <= x.a[1] <= hi else x
        if x.op == "app" and x.a[0] == "rest":
            return self.left(A("split", x.a[2][0], x.a[2][2]), x.a[2][1].a[1])
        if x.op == "empty":
            r = self.plist(x.a[0])
            if r:
                return TRUE if r[2] == 0 else notb(self.more(r[0], r[1]))
        if x.op in ("eq", "lt"):
            for i in (0, 1):
                l, m = x.a[i], x.a[1 - i]
                if l.op == "len" and m.op == "c" and m.a[0] == "int":
                    r = self.plist(l.a[0])
                    if not r:
                        continue
                    L, k, top = r
                    m = int(m.a[1])
                    if x.op == "eq":
                        if top is not None and m > top:
                            return FALSE
                        if m == 0:
                            return notb(self.more(L, k))
                        return self.more(L, k + m - 1) if m == top else self.parts(mk("count", L, k + m))
                    if i == 0:                   # len < m
                        return TRUE if top is not None and m > top else notb(self.more(L, k + m - 1)) if m > 0 else FALSE
                    return FALSE if top is not None and m >= top else self.more(L, k + m)
        if x.op == "idx" and x.a[1].op == "c":
            r = self.plist(x.a[0])
            if r:
                L, k, top = r
                m = int(x.a[1].a[1])
                return self.left(L, k + m) if top == m + 1 else self.part(L, k + m)
        if x.op == "is" and x.a[0].op == "app" and last(x.a[0].a[0]) == "split_once" and seps(x.a[0].a[2][1]):
            sep = seps(x.a[0].a[2][1])
            t, k = self.start(x.a[0].a[2][0], sep)
            y = self.more(A("split", t, sep), k + 1)
            return y if x.a[1] == "Some" else notb(y)
        if x.op == "f" and x.a[0].op == "f" and x.a[0].a[1] == "Some" and x.a[0].a[0].op == "app" and last(x.a[0].a[0].a[0]) == "split_once" and seps(x.a[0].a[0].a[2][1]):
            sep = seps(x.a[0].a[0].a[2][1])
            t, k = self.start(x.a[0].a[0].a[2][0], sep)
            L = A("split", t, sep)
            return self.part(L, k) if x.a[2] == "0" else self.left(L, k + 1)
        return x

    def tag(self, t):
        if isinstance(t, tuple):
            return tuple(self.tag(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self.tag(x) for x in t)
        return self.n(t) if isinstance(t, TM.T) else t

    def union(self, x, y):
        if x is y:
            return False
        kx, ky = (x.op != "c", size(x), x.n), (y.op != "c", size(y), y.n)
        if kx > ky:
            x, y = y, x
        if y.op == "c":
            self.clash = True
            return False
        if y in self.rep:
            return False
        if y.op == "len" and x.op == "c":
            if x is C("int", 1) and y.a[0] not in self.single:
                self.single.add(y.a[0])
                self.memo = {}
                return True
            return False
        self.rep[y] = x
        self.memo = {}
        return True

    def n(self, t):
        if not isinstance(t, TM.T):
            return self.tag(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        self.memo[t] = t
        if t.op in ("elem", "idx") and t.a[0].op == "alt":
            y = simp(t.a[0], self.F)
            if y is not t.a[0]:
                t0, t = t, rebuild(t, (y,) + t.a[1:])
                r = self.memo[t0] = self.n(t)
                return r
        x = rebuild(t, tuple(self.tag(p) for p in t.a)) if t.op not in ("c", "sym") else t
        x = self.rules(x)
        k = 0
        while x in self.rep and k < 20:
            x = self.rep[x]
            k += 1
        self.memo[t] = x
        return x

    def rules(self, x):
        if x.op == "eq" and any(p in self.kinds for p in x.a):
            p, q = x.a if x.a[0] in self.kinds else x.a[::-1]
            if unit_kind(q):
                return isv(q, *self.kinds[p])
        y = self.parts(x)
        if y is not x:
            return y
        if x.op == "empty" and hashes(x.a[0]):
            return FALSE
        if x.op == "idx" and hashes(x.a[0]) and x.a[1] is C("int", 0):
            t = x.a[0].a[2][0]
            o = A("split_once", t, S("#"))
            for v, r in (("None", t), ("Some", field(someof(o), "0"))):
                i = isv(o, v, OPT)
                if (i, True) in self.F or (i, True) in self.seen:
                    return r
        if x.op == "slice" and x.a[1] is C("int", 0):
            e = x.a[2]
            if e.op == "f" and e.a[1] == "Some" and e.a[0].op == "app" and last(e.a[0].a[0]) in ("find", "split_once") and e.a[0].a[2][0] is x.a[0]:
                return field(field(A("split_once", *e.a[0].a[2]), "0", "Some"), "0")
        if x.op == "app" and last(x.a[0]) in ("find", "split_once") and len(x.a[2]) == 2 and x.a[2][1].op == "c":
            return A("split_once", x.a[2][0], S(str(x.a[2][1].a[1])))
        if x.op == "app" and last(x.a[0]) == "contains" and len(x.a[2]) == 2 and x.a[2][1].op == "c" and x.a[2][1].a[0] in ("str", "char"):
            return self.parts(isv(A("split_once", x.a[2][0], S(str(x.a[2][1].a[1]))), "Some", OPT))
        if x.op == "list" and any(q.op == "comp" and q.a[0].op == "list" and not q.a[2] and all(o.op == "one" for o in q.a[0].a) for q in x.a):
            out = []
            for q in x.a:
                if q.op == "comp" and q.a[0].op == "list" and not q.a[2] and all(o.op == "one" for o in q.a[0].a):
                    out += [mk("one", subst(q.a[3], {q.a[1]: o.a[0]})) for o in q.a[0].a]
                else:
                    out.append(q)
            return lst(*out)
        if x.op == "comp" and x.a[1].op == "elem" and x.a[1].a[1] != "c":
            b = mk("elem", x.a[1].a[0], "c")
            g = subst_facts(x.a[2], {x.a[1]: b})
            if g is not None:
                return mk("comp", x.a[0], b, g, subst(x.a[3], {x.a[1]: b}))
        if x.op == "elem" and isinstance(x.a[1], tuple) and len(x.a[1]) == 3 and x.a[0] not in self.single:
            return same_choice(x)
        if x.op == "elem" and x.a[0] in self.single:
            return index(x.a[0], C("int", 0))
        if x.op == "app":
            n = last(x.a[0])
            if n in ("decode_config", "decode_config_buf") and len(x.a[2]) > 1 and urlsafe(x.a[2][1]):
                return A(URL, x.a[2][0])
            if n in ("encode_config",) and len(x.a[2]) > 1 and urlsafe(x.a[2][1]):
                return A("to_" + URL, x.a[2][0])
            if n in ("from_str", "from_slice", "from_value") and "serde_json" in x.a[0]:
                return A("json", x.a[2][0], types=tuple(tname(str(q)) for q in x.a[1][:1]))
            if n == "digest" and x.a[1]:
                return A("digest", x.a[2][0], types=(tname(str(x.a[1][0])),))
        return x

    def holds(self, a, b=True):
        a = self.n(a)
        if a.op == "c":
            return a.a[1] == b
        return entails(self.G, (a, b)) if self.G is not None else True

    def variant(self, x):
        """which variant x is known to be"""
        x = self.n(x)
        if x.op == "adt":
            return x.a[1]
        for a, b in self.G:
            if b and a.op == "is" and a.a[0] is x:
                return a.a[1]
        return None

    def choice(self, x):
        """what is known of an element from how it was chosen"""
        if x.op == "elem" and isinstance(x.a[1], tuple) and len(x.a[1]) == 3:
            g = subst_facts(x.a[1][2], {x.a[1][1]: x})
            return frozenset((self.n(a), b) for a, b in g or ())
        return EMPTY

    def ok(self, x):
        return self.holds(isv(self.n(x), "Ok", RES))

    def some(self, x):
        return self.holds(isv(self.n(x), "Some", OPT))

    def positive(self, name):
        """calls of that name known to have succeeded"""
        return [a.a[0] for a, b in sorted(self.G, key=lambda f: f[0].n) if b and a.op == "is" and a.a[1] == "Ok" and a.a[0].op == "app" and last(a.a[0].a[0]) == name]


def hashes(x):
    """a text cut at '#'"""
    return x.op == "app" and last(x.a[0]) in ("split", "splitn") and x.a[2][1].op == "c" and str(x.a[2][1].a[1]) == "#" and (len(x.a[2]) < 3 or x.a[2][2].op == "c" and x.a[2][2].a[1] > 1)


def unit_kind(x):
    """an enumeration without data of which it is enough to know the variant"""
    return x.op == "app" and x.a[0].startswith("cut:key_alg")


def split(F):
    """consistent disjunction-free readings of F, each with its canonical terms"""
    out = []
    for G in sat_cases(F):
        c = Canon(G)
        if c.G is not None:
            out.append(c)
    return out


def parsed(ty, x):
    return A("json", x, types=(ty,))


def b64(x):
    return A(URL, x)


class Shape(object):
    """members of a serialised type of the crate by their wire names"""

    def __init__(self, ctx, path):
        self.path = path
        self.name = tname(path)
        self.m = {}
        for f in wire.fields(ctx, path):
            for n in list(f.de) + [f.ser]:
                self.m.setdefault(n, f.rust)

    def __call__(self, v, name):
        r = self.m.get(name)
        return field(v, r) if r is not None else None


def shape_of(ctx, names, hint, without=()):
    p = shape(ctx, names, hint, without)
    return Shape(ctx, p) if p else None


def did_part(x, kid):
    """is x the part of kid before its first '#'"""
    if x.op == "f" and x.a[2] == "0" and x.a[0].op == "f" and x.a[0].a[0].op == "app":
        s = x.a[0].a[0]
        return last(s.a[0]) == "split_once" and s.a[2][0] is kid and s.a[2][1] in (S("#"), C("char", "#"))
    if x.op == "idx" and x.a[0].op == "app" and last(x.a[0].a[0]) in ("split", "splitn"):
        s = x.a[0]
        return s.a[2][0] is kid and s.a[2][-1] in (S("#"), C("char", "#")) and x.a[1] is C("int", 0)
    return False


def opened(v, F=EMPTY):
    """(facts, result) for each way the value can be"""
    for g, x in cases(v):
        g = ext(F, g)
        if g is None:
            continue
        if x.op == "adt" and x.a[1] in ("Ok", "Err"):
            for h, y in cases(x.a[3][0]):
                e = ext(g, h)
                if e is not None:
                    yield e, x.a[1], y
        else:
            yield g, None, x


def deep(v, F):
    """alternatives the facts rule out dropped, inside constructors too"""
    v = simp(v, F)
    if v.op == "adt" and v.a[3]:
        return adt(v.a[0], v.a[1], v.a[2], tuple(deep(x, F) for x in v.a[3]))
    return v


def pick(v, c, f=lambda x: x):
    """what v is in the reading c, satisfiability of each alternative decided"""
    out = []
    for g, x in cases(v):
        e = ext(c.F, g)
        if e is None or not sat(e):
            continue
        for h, y in cases(f(x)):
            e2 = ext(e, h)
            if e2 is None or (h and not sat(e2)):
                continue
            y = c.n(y)
            if all(y is not z for _, z in out):
                out.append((ext(g, h) or EMPTY, y))
    if len(out) > 1:
        # what only the canonical terms contradict
        out = [(g, y) for g, y in out if split(ext(c.F, g) or EMPTY)] or out
    if len(out) == 1:
        return out[0][1]
    return alt(out) if out else BOT


def settled(c, t):
    """readings in which every list of alternatives that an element in t is taken from is decided"""
    for x in walk(c.n(t)):
        if x.op in ("elem", "idx") and x.a[0].op == "alt":
            out = []
            for g, _ in cases(x.a[0]):
                e = ext(c.F, g)
                for c2 in split(e) if e is not None else ():
                    if c2.n(t) is c.n(t):
                        return [c]
                    out.extend(settled(c2, t))
            return out
    return [c]


WRAPPERS = ("from_slice", "to_vec", "into_vec", "from", "into", "as_bytes", "to_owned", "clone", "as_ref", "deref")


def bare(x):
    """the bytes themselves, copies and views of them left out"""
    while x.op == "app" and last(x.a[0]) in WRAPPERS and len(x.a[2]) == 1:
        x = x.a[2][0]
    return x


def told_apart(g):
    """the facts without those that say of a chosen element what it was chosen for"""
    if any(a.op == "or" and b and any(in_fact(x) for d in a.a[0] for x, _ in d) or a.op == "or" and b and any(x.op == "or" for d in a.a[0] for x, _ in d) for a, b in g):
        out = set()
        for a, b in g:
            if a.op == "or" and b:
                out |= TM.mk_or([told_apart(d) for d in a.a[0]])
            else:
                out.add((a, b))
        g = frozenset(out)
    chosen = set()
    for a, b in g:
        if in_fact(a) and (a.a[1] == "Some") == b and isinstance(a.a[0].a[0].a[1], tuple) and len(a.a[0].a[0].a[1]) == 3:
            e = a.a[0].a[0]
            chosen |= subst_facts(e.a[1][2], {e.a[1][1]: e}) or EMPTY
    kept = frozenset(f for f in g if f not in chosen)
    if chosen:
        for f in kept:
            if in_fact(f[0]) or f[0].op == "or":
                continue
            rest = ext(EMPTY, (kept - {f}) | frozenset(chosen))
            if rest is not None:
                e = ext(rest, frozenset([(f[0], not f[1])]))
                if e is None or not sat(e):
                    kept = kept - {f}
    return kept


def with_element(F, L, n=None):
    """some element of L, with every recorded 'no element of L is so' said of it"""
    z = mk("elem", L, n or "z")
    out = [(mk("is", mk("it", z), "Some", TM.ONCE), True)]
    for a, b in F:
        if in_fact(a) and (a.a[1] == "None") == b:
            e = a.a[0].a[0]
            if e.op == "elem" and e.a[0] is L and isinstance(e.a[1], tuple) and len(e.a[1]) == 3:
                g = subst_facts(e.a[1][2], {e.a[1][1]: z})
                if g is None:
                    continue
                if not g:
                    return z, None
                out.extend(negfacts(told_apart(g)))
        if a.op == "empty" and a.a[0] is L and b:
            return z, None
    return z, ext(F, frozenset(out))


def impossible(F, *facts):
    """do the facts contradict F"""
    if F is None:
        return True
    e = ext(F, frozenset(facts))
    return e is None or not sat(e) or all(absurd(c) for c in split(e))


def absurd(c):
    """does an element that exists contradict what it was chosen for, or that there is none of its kind"""
    there, none = [], []
    for a, b in c.G:
        if in_fact(a) and isinstance(a.a[0].a[0].a[1], tuple) and len(a.a[0].a[0].a[1]) == 3:
            z = a.a[0].a[0]
            if (a.a[1] == "Some") != b:
                none.append(z)
                continue
            g = subst_facts(z.a[1][2], {z.a[1][1]: z})
            e = ext(c.G, g) if g is not None else None
            if e is None or not sat(e):
                return True
            there.append((z, e))
    for y in none:
        for z, e in there:
            if z.a[0] is y.a[0]:
                g = subst_facts(y.a[1][2], {y.a[1][1]: z})
                if g is None:
                    continue
                if implies(e, g):
                    return True
    return False


def negated(F, what):
    return [(a, not b) for a, b in what]


def eta(x):
    """a struct put together from all members of another is that one"""
    if x.op == "adt" and x.a[3] and x.a[1] in (None, last(x.a[0])):
        b = x.a[3][0]
        b = b.a[0] if b.op == "f" else None
        if b is not None and all(y is field(b, n) for n, y in zip(x.a[2], x.a[3])):
            return b
    return x


def same_struct(c, x, t):
    """t, also when it was put together again member by member"""
    return x is t or eta(x) is t or x.op == "adt" and x.a[3] and x.a[1] in (None, last(x.a[0])) and all(c.n(y) is c.n(field(t, n)) for n, y in zip(x.a[2], x.a[3]))


CUTS = ("rsplit_once", "rfind", "rsplit", "rsplitn", "matches", "find", "chars", "bytes", "char_indices", "match_indices", "rmatch_indices", "split_at", "split_terminator",
        "split_inclusive", "trim", "trim_start", "trim_end", "trim_matches", "strip_prefix", "strip_suffix", "split_whitespace", "replace", "to_lowercase", "lines")


def other_cuts(terms, text):
    """ways of cutting the text that are not told in parts"""
    def of(x):
        while True:
            if x is text:
                return True
            if x.op in ("slice", "f", "idx"):
                x = x.a[0]
            elif x.op == "app" and last(x.a[0]) in CUTS + PARTS + ("rest",) and x.a[2]:
                x = x.a[2][0]
            else:
                return False
    seen = set()
    for t in terms:
        for x in walk(t, seen):
            if (x.op == "slice" or x.op == "app" and last(x.a[0]) in CUTS) and of(x):
                return x
    return None


def part_count(c, L):
    """bounds on the number of parts the text is known to have"""
    return c.lens.get(L, (1, 10 ** 6))


def starts(F, x, sep):
    """F with what is known of the beginning of x told in parts"""
    L = mk("app", "split", (), (x, sep))
    out = [F]
    for a, b in F:
        if a.op == "app" and last(a.a[0]) == "starts_with" and a.a[2][0] is x and a.a[2][1].op == "c":
            w = str(a.a[2][1].a[1])
            s = str(sep.a[1])
            if not w.endswith(s) or w.count(s) != 1:
                continue
            two, head = (mk("more", L, 1), True), (eq(mk("idx", L, C("int", 0)), S(w[:-1])), True)
            new = []
            for f in out:
                if b:
                    new.append(ext(f - {(a, b)}, frozenset([two, head])))
                else:
                    new += [ext(f - {(a, b)}, frozenset([(two[0], False)])), ext(f - {(a, b)}, frozenset([two, (head[0], False)]))]
            out = [f for f in new if f is not None]
    return out
