"""Terms, facts and their normal forms.

A term denotes a value the program computes, by where it comes from: an
argument, a field of another value, the result of a call, a constructed
value.  A fact is a (term, bool) pair known to hold.  Everything is interned,
so equality is identity."""

_tab = {}


class T(float):
    """a term.  A float (its number in order of making, and a half) only so that its hash is cheap and the same in every run"""
    __slots__ = ("op", "a", "lv", "key", "n")

    def __repr__(self):
        return show(self)

LEAF = ("sym", "elem", "phi", "fresh")


def _leaves(x, acc):
    if isinstance(x, T):
        acc |= x.lv
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            if isinstance(y, T):
                acc |= y.lv
            elif isinstance(y, (tuple, frozenset)):
                _leaves(y, acc)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(len(_tab) + 0.5)
        t.op = op
        t.a = a
        t.n = len(_tab)
        acc = set()
        _leaves(a, acc)
        if op in LEAF:
            acc.add(t)
        t.lv = frozenset(acc)
        _tab[k] = t
    return t


def C(kind, v):
    return mk("c", kind, v)


TRUE = C("bool", True)
FALSE = C("bool", False)
UNIT = mk("adt", "()", None, (), ())
BOT = mk("bot")
EMPTY = frozenset()


def B(b):
    return TRUE if b else FALSE


def S(s):
    return C("str", s)


def sym(n):
    return mk("sym", n)


def adt(path, variant, names, vals):
    return mk("adt", path, variant, tuple(names), tuple(vals))


def tup(*vals):
    return adt("", None, [str(i) for i in range(len(vals))], vals)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
VARIANTS = {OPTION: ("None", "Some"), RESULT: ("Ok", "Err"), "core::ops::control_flow::ControlFlow": ("Continue", "Break"),
            "core::task::poll::Poll": ("Ready", "Pending"), "core::cmp::Ordering": ("Less", "Equal", "Greater")}


def some(v):
    return adt(OPTION, "Some", ("0",), (v,))


NONE = adt(OPTION, "None", (), ())


def ok(v):
    return adt(RESULT, "Ok", ("0",), (v,))


def err(v):
    return adt(RESULT, "Err", ("0",), (v,))


# ---------------------------------------------------------------- facts

def neg(a, b):
    return (a, not b)


def norm_fact(f):
    a, b = f
    while a.op == "not":
        a, b = a.a[0], not b
    return (a, b)


def _eqconst(a):
    """(x, const) when a is eq(x, const)"""
    if a.op == "eq":
        x, y = a.a
        if y.op == "c":
            return x, y
        if x.op == "c":
            return y, x
    return None


def conflicts(F, f):
    a, b = f
    if a is TRUE:
        return not b
    if a is FALSE:
        return b
    if (a, not b) in F:
        return True
    if a.op == "is" and b:
        x, v, vs = a.a
        for w in vs:
            if w != v and (mk("is", x, w, vs), True) in F:
                return True
    elif a.op == "eq" and b:
        k = _eqconst(a)
        if k:
            x, c = k
            for (g, gb) in F:
                if gb and g.op == "eq" and g is not a:
                    k2 = _eqconst(g)
                    if k2 and k2[0] is x and k2[1] is not c:
                        return True
    elif a.op == "or" and b:
        return all(any(conflicts(F, g) for g in d) for d in a.a[0])
    return False


_ext = {}


def ext(F, new):
    """F extended with new facts, or None when that is contradictory."""
    new = frozenset(new)
    if not new or new <= F:
        return F
    k = (F, new)
    r = _ext.get(k, 0)
    if r == 0:
        r = _ext[k] = _ext_(F, new)
    return r


def _ext_(F, new):
    S_ = set(F)
    todo = [norm_fact(f) for f in new]
    grew = False
    while True:
        while todo:
            f = norm_fact(todo.pop())
            a, b = f
            if a is TRUE or a is FALSE:
                if (a is TRUE) != b:
                    return None
                continue
            if f in S_:
                continue
            if conflicts(S_, f):
                return None
            S_.add(f)
            grew = True
            if a.op == "is" and not b:
                x, v, vs = a.a
                left = [w for w in vs if (mk("is", x, w, vs), False) not in S_]
                if not left:
                    return None
                if len(left) == 1:
                    todo.append((mk("is", x, left[0], vs), True))
            elif a.op == "is" and b:
                x, v, vs = a.a
                for w in vs:
                    if w != v:
                        S_.discard((mk("is", x, w, vs), False))
        if not grew:
            break
        grew = False
        for f in [f for f in S_ if f[0].op == "or" and f[1]]:
            ds = f[0].a[0]
            keep = [d for d in ds if not any(conflicts(S_, g) for g in d)]
            if not keep:
                return None
            if len(keep) == 1:
                S_.discard(f)
                todo.extend(keep[0])
            elif any(all(g in S_ for g in d) for d in keep):
                S_.discard(f)
            elif len(keep) < len(ds):
                S_.discard(f)
                todo.extend(mk_or(keep))
        if not todo:
            break
    return frozenset(S_)


def consistent(F, d):
    return not any(conflicts(F, g) for g in d)


ORMAX = 64000
DROPS = [0]       # disjunctions given up for their size
_orsize = {}


def fsize(d):
    n = 0
    for (a, b) in d:
        if a.op == "or":
            if a not in _orsize:
                _orsize[a] = sum(fsize(x) for x in a.a[0])
            n += _orsize[a]
        else:
            n += 1
    return n


def mk_or(ds):
    """facts equivalent to (weaker than) the disjunction of fact sets"""
    ds = list(dict.fromkeys(frozenset(d) for d in ds))
    if not ds:
        return EMPTY
    if len(ds) == 1:
        return ds[0]
    common = frozenset.intersection(*ds)
    rest = []
    for d in ds:
        d = d - common
        if len(d) == 1:
            (a, b), = d
            if a.op == "or" and b:
                rest.extend(a.a[0])
                continue
        rest.append(d)
    if any(not d for d in rest):
        return common
    rest = list(dict.fromkeys(rest))
    # drop disjuncts that imply another one
    rest = [d for d in rest if not any(e < d for e in rest)]
    if len(rest) == 1:
        return common | rest[0]
    if all(len(d) == 1 for d in rest):
        fs = [next(iter(d)) for d in rest]
        if any((a, not b) in fs for a, b in fs):
            return common
        x = fs[0][0]
        if x.op == "is" and all(f[0].op == "is" and f[1] and f[0].a[0] is x.a[0] for f in fs) and \
                set(f[0].a[1] for f in fs) == set(x.a[2]):
            return common
    if sum(fsize(d) for d in rest) > ORMAX or len(rest) > 64:
        DROPS[0] += 1
        return common
    return common | {(mk("or", frozenset(rest)), True)}


# ---------------------------------------------------------------- alternatives

def alt(cases):
    """cases: iterable of (facts, value); flattened, merged by value"""
    flat = []

    def put(g, v):
        if v is BOT:
            return
        if v.op == "alt":
            for h, w in v.a[0]:
                e = ext(g, h)
                if e is not None:
                    put(e, w)
            return
        flat.append((g, v))
    for g, v in cases:
        put(g, v)
    by = {}
    for g, v in flat:
        if v in by:
            by[v].append(g)
        else:
            by[v] = [g]
    # same constructor: merge field-wise
    groups = {}
    for v, gs in by.items():
        if v.op == "adt" and v.a[3]:
            groups.setdefault((v.a[0], v.a[1], v.a[2]), []).append(v)
        else:
            groups.setdefault(v, []).append(v)
    out = []
    for k, vs in groups.items():
        if len(vs) == 1:
            out.append((mk_or(by[vs[0]]), vs[0]))
        else:
            gs = [g for v in vs for g in by[v]]
            cs = [(g, v) for v in vs for g in by[v]]
            common = frozenset.intersection(*gs)
            vals = []
            for i in range(len(vs[0].a[3])):
                vals.append(alt([(g - common, v.a[3][i]) for g, v in cs]))
            out.append((mk_or(gs), adt(k[0], k[1], k[2], vals)))
    if not out:
        return BOT
    if len(out) == 1:
        return out[0][1]
    if len(out) > 96:
        common = EMPTY
        return mk("any", frozenset(v for _, v in out))
    return mk("alt", tuple(sorted(out, key=lambda x: x[1].n)))


def cases(v):
    return v.a[0] if v.op == "alt" else ((EMPTY, v),)


def mapalt(v, f):
    if v.op == "alt":
        return alt([(g, f(w)) for g, w in v.a[0]])
    return f(v)


_simp = {}


def simp(v, F):
    """drop the alternatives the facts rule out"""
    if v.op != "alt" or not F:
        return v
    k = (v, F)
    r = _simp.get(k)
    if r is None:
        keep = [(g, w) for g, w in v.a[0] if consistent(F, g)]
        if len(keep) == len(v.a[0]):
            r = v
        elif len(keep) == 1:
            r = keep[0][1]
        else:
            r = mk("alt", tuple(keep)) if keep else BOT
        _simp[k] = r
    return r


def field(v, name, variant=None):
    op = v.op
    if op == "adt":
        if variant is not None and v.a[1] is not None and v.a[1] != variant and v.a[0] in VARIANTS:
            return BOT
        if variant is not None and v.a[1] != variant and name not in v.a[2]:
            return BOT
        if variant is not None and v.a[1] != variant:
            return BOT
        try:
            return v.a[3][v.a[2].index(name)]
        except ValueError:
            return mk("f", v, variant, name)
    if op == "clo":
        try:
            return v.a[1][int(name)]
        except (ValueError, IndexError):
            return mk("f", v, variant, name)
    if op == "alt":
        return alt([(g, field(w, name, variant)) for g, w in v.a[0]])
    if op == "upd":
        if v.a[1] == (variant, name):
            return v.a[2]
        return field(v.a[0], name, variant)
    if op == "bot":
        return BOT
    return mk("f", v, variant, name)


def with_field(v, name, variant, val):
    if v.op == "adt" and (variant is None or v.a[1] == variant) and name in v.a[2]:
        i = v.a[2].index(name)
        return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (val,) + v.a[3][i + 1:])
    if v.op == "alt":
        return alt([(g, with_field(w, name, variant, val)) for g, w in v.a[0]
                    if not (w.op == "adt" and variant is not None and w.a[1] != variant)])
    if v.op == "clo":
        i = int(name)
        return mk("clo", v.a[0], v.a[1][:i] + (val,) + v.a[1][i + 1:])
    if variant in ("Some", "Ok", "Err") and name == "0":
        return some(val) if variant == "Some" else adt(RESULT, variant, ("0",), (val,))
    # an update that restores the original is no update
    k = (variant, name)
    chain = {}
    b = v
    while b.op == "upd":
        chain[b.a[1]] = b.a[2]
        b = b.a[0]
    if val is mk("f", b, variant, name):
        chain.pop(k, None)
    else:
        chain[k] = val
    for kk in sorted(chain, key=str):
        b = mk("upd", b, kk, chain[kk])
    return b


def notb(v):
    if v.op == "c":
        return B(not v.a[1])
    if v.op == "not":
        return v.a[0]
    if v.op == "alt":
        return alt([(g, notb(w)) for g, w in v.a[0]])
    return mk("not", v)


def isv(v, variant, variants):
    """boolean term: v is of that variant"""
    if v.op == "adt":
        return B(v.a[1] == variant)
    if v.op == "alt":
        return alt([(g, isv(w, variant, variants)) for g, w in v.a[0]])
    if len(variants) == 1:
        return TRUE
    if v.op == "upd" and v.a[1][0] in variants:
        return B(v.a[1][0] == variant)
    return mk("is", v, variant, tuple(variants))


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and y.op == "c" and y.a[0] == "int" and len(x.a) > 2:
            n = dict(x.a[2]).get(str(y.a[1]))
            return isv(x.a[0], n, x.a[1]) if n is not None else FALSE
    if a.op == "alt":
        return alt([(g, eq(w, b)) for g, w in a.a[0]])
    if b.op == "alt":
        return alt([(g, eq(a, w)) for g, w in b.a[0]])
    if a.op == "bot" or b.op == "bot":
        return BOT
    if a.op == "c" and b.op == "c":
        if a.a[0] == "const" or b.a[0] == "const":
            return mk("eq", *sorted((a, b)))
        if {a.a[0], b.a[0]} == {"str", "bytes"}:
            x, y = (a, b) if a.a[0] == "str" else (b, a)
            return B(x.a[1].encode() == bytes(y.a[1]))
        return B(a.a[1] == b.a[1])
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return conj([eq(x, y) for x, y in zip(a.a[3], b.a[3])])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.a[0] in VARIANTS or (x.op == "adt" and x.a[1] is not None and not x.a[3] and x.a[0] in ENUMS):
            vs = VARIANTS.get(x.a[0]) or ENUMS[x.a[0]]
            c = [isv(y, x.a[1], vs)]
            for n, w in zip(x.a[2], x.a[3]):
                c.append(eq(field(y, n, x.a[1]), w))
            return conj(c)
    if a.op == "list" and b.op == "list":
        if all(s.op == "one" for s in a.a) and all(s.op == "one" for s in b.a):
            if len(a.a) != len(b.a):
                return FALSE
            return conj([eq(x.a[0], y.a[0]) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if (x.op == "list" and not x.a) or (x.op == "c" and x.a[0] == "str" and x.a[1] == "") or (x.op == "c" and x.a[0] == "bytes" and not x.a[1]):
            return empty(y)
        if x.op == "c" and x.a[0] == "int" and str(x.a[1]) == "0" and y.op == "len":
            return empty(y.a[0])
    return mk("eq", *sorted((a, b)))


ENUMS = {}  # fieldful/less local enums: path -> variant names (filled from the dump)


def conj(bs):
    r = TRUE
    for b in bs:
        r = and_(r, b)
    return r


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    cs = []
    for g in cases_bool(a, True):
        e = ext(EMPTY, g)
        if e is not None:
            for h in cases_bool(b, True):
                k = ext(e, h)
                if k is not None:
                    cs.append((k, TRUE))
            for h in cases_bool(b, False):
                k = ext(e, h)
                if k is not None:
                    cs.append((k, FALSE))
    for g in cases_bool(a, False):
        e = ext(EMPTY, g)
        if e is not None:
            cs.append((e, FALSE))
    return alt(cs)


def or_(a, b):
    return notb(and_(notb(a), notb(b)))


def cases_bool(v, b):
    """fact sets under which boolean v equals b"""
    if v.op == "c":
        return [EMPTY] if v.a[1] is b else []
    if v.op == "not":
        return cases_bool(v.a[0], not b)
    if v.op == "alt":
        out = []
        for g, w in v.a[0]:
            for h in cases_bool(w, b):
                e = ext(g, h)
                if e is not None:
                    out.append(e)
        return out
    if v.op == "bot":
        return []
    return [frozenset([(v, b)])]


def assume_cases(F, cs):
    outs = [c for c in cs if consistent(F, c)]
    if not outs:
        return None
    return ext(F, mk_or(outs))


def assume(F, v, b):
    return assume_cases(F, cases_bool(v, b))


def entails(F, fact, depth=4):
    """does the fact follow from F (case split on recorded disjunctions only)"""
    if callable(fact):
        if any(fact(f) for f in F):
            return True
    else:
        fact = norm_fact(fact)
        if fact in F or fact[0] is B(fact[1]):
            return True
        if conflicts(F, neg(*fact)) and fact[0].op == "is":
            return True
    if depth:
        for f in F:
            if f[0].op == "or" and f[1]:
                good = True
                for d in f[0].a[0]:
                    e = ext(F - {f}, d)
                    if e is not None and not entails(e, fact, depth - 1):
                        good = False
                        break
                if good:
                    return True
    return False


def smallest_or(G):
    o = None
    for f in G:
        if f[0].op == "or" and f[1]:
            if o is None or len(f[0].a[0]) < len(o[0].a[0]) or (len(f[0].a[0]) == len(o[0].a[0]) and f[0].n < o[0].n):
                o = f
    return o


def implied(F, d):
    """do all facts of d follow from F at a glance"""
    for f in d:
        if f in F:
            continue
        a, b = f
        if a.op == "or" and b and any(implied(F, e) for e in a.a[0]):
            continue
        return False
    return True


def pruned(F):
    """F without the disjunctions that its other facts imply"""
    ors = [f for f in F if f[0].op == "or" and f[1]]
    if not ors:
        return F
    for f in sorted(ors, key=lambda f: -fsize([f])):
        G = F - {f}
        if implied(G, [f]):
            F = G
    return F


def splits(F, limit=4096):
    """F as a list of disjunction-free fact sets (case split on all recorded disjunctions)"""
    out = []
    todo = [F]
    while todo:
        G = pruned(todo.pop())
        o = smallest_or(G)
        if o is None:
            out.append(G)
            if len(out) + len(todo) > limit:
                raise OverflowError("too many cases")
            continue
        for d in o[0].a[0]:
            e = ext(G - {o}, d)
            if e is not None:
                todo.append(e)
    return out


# ---------------------------------------------------------------- elements of lists

ONCE = ("None", "Some")


def bound_for(L, G):
    names = set()
    for a, _ in G:
        for x in a.lv:
            if x.op == "elem" and x.a[0] is L and isinstance(x.a[1], str):
                names.add(x.a[1])
    n = "b"
    while n in names:
        n += "b"
    return mk("elem", L, n)


def in_fact(a):
    return a.op == "is" and a.a[0].op == "it"


def chosen(which, src, e, G):
    """the first / last element of src for which facts G (stated on e) hold"""
    k = src
    while k.op == "app" and k.a[0] in ("rev", "sort"):
        if k.a[0] == "rev" and which in ("first", "last"):
            which = "last" if which == "first" else "first"
        elif k.a[0] == "sort":
            which = "sorted " + which
        k = k.a[2][0]
    G = frozenset(f for f in G if not (in_fact(f[0]) and f[0].a[0].a[0] is e))
    b = bound_for(e.a[0], G)
    H = subst_facts(G, {e: b})
    if H is None:
        H = frozenset([(FALSE, True)])
    return mk("elem", e.a[0], (which, b, H))


def exists_fact(src, e, G, b=True):
    """some element of src satisfies the facts G (stated on e)"""
    while src.op == "app" and src.a[0] in ("rev", "sort"):
        src = src.a[2][0]
    if e.op != "elem":
        return (mk("exists", src, e, frozenset(G)), b)
    G = frozenset(f for f in G if not (in_fact(f[0]) and f[0].a[0].a[0] is e))
    if not G:
        return (mk("empty", e.a[0]), not b)
    x = chosen("first", e.a[0], e, G)
    return (mk("is", mk("it", x), "Some" if b else "None", ONCE), True)


def negfacts(fs):
    """facts equivalent to the negation of the conjunction fs"""
    ds = [frozenset([(a, not b)]) for a, b in fs]
    return mk_or([neg_one(f) for f in fs]) if ds else frozenset([(FALSE, True)])


def neg_one(f):
    a, b = f
    if a.op == "or":
        if b:
            r = EMPTY
            for d in a.a[0]:
                r = r | negfacts(d)
            return r
        return mk_or(list(a.a[0]))
    return frozenset([(a, not b)])


def forall(src, e, facts, given=EMPTY):
    """facts: every element of src of which `given` holds satisfies the given facts (stated on e)"""
    out = set()
    if given:
        for f in facts:
            if in_fact(f[0]) and f[0].a[0].a[0] is e:
                continue
            g = neg_one(f)
            ds = [g]
            if len(g) == 1:
                (a, b), = g
                if a.op == "or" and b:
                    ds = a.a[0]
            for d in ds:
                h = ext(frozenset(given), d)
                if h is not None:
                    out.add(exists_fact(src, e, h, False))
        return frozenset(out)
    for f in facts:
        if in_fact(f[0]) and f[0].a[0].a[0] is e:
            continue
        g = neg_one(f)
        # an element violating any of the alternatives does
        if len(g) == 1:
            (a, b), = g
            if a.op == "or" and b:
                for d in a.a[0]:
                    out.add(exists_fact(src, e, d, False))
                continue
        out.add(exists_fact(src, e, g, False))
    return frozenset(out)


def notexists(src, e, G):
    """facts: no element satisfies G (a conjunction that may hold alternatives)"""
    ors = [f for f in G if f[0].op == "or" and f[1]]
    if len(ors) == 1 and len(ors[0][0].a[0]) <= 8:
        out = set()
        for d in ors[0][0].a[0]:
            g = ext(G - {ors[0]}, d)
            if g is not None:
                out.add(exists_fact(src, e, g, False))
        return frozenset(out)
    return frozenset([exists_fact(src, e, G, False)])


# ---------------------------------------------------------------- lists

def lst(*segs):
    """list of segments, collapsed when it is one whole unknown list"""
    out = []
    for s in segs:
        if s.op == "all" and s.a[0].op == "list":
            out.extend(s.a[0].a)
        elif s.op == "comp" and s.a[0].op == "list" and (not s.a[0].a or not s.a[2] and all(z.op == "one" for z in s.a[0].a)):
            out.extend(mk("one", subst(s.a[3], {s.a[1]: z.a[0]})) for z in s.a[0].a)
        else:
            out.append(s)
    if len(out) == 1 and out[0].op == "all":
        return out[0].a[0]
    return mk("list", *out)


def one(v):
    return mk("one", v)


def comp(src, ev, guards, value):
    """for each element ev of src for which guards hold: value"""
    if not guards and value is ev:
        return mk("all", src)
    return mk("comp", src, ev, frozenset(guards), value)


def segs(v):
    if v.op == "list":
        return v.a
    if v.op == "c" and v.a[0] == "bytes":
        return tuple(one(C("int", x)) for x in v.a[1])
    return (mk("all", v),)


def none_such(s):
    """no element of a filtered list: none of the source satisfies the filter"""
    src, e, g, val = s.a
    if e.op != "elem":
        return mk("empty", mk("list", s))
    (t, b) = exists_fact(src, e, g)
    if t.op == "is" and b:
        return mk("is", t.a[0], "None", ONCE) if t.a[1] == "Some" else mk("empty", mk("list", s))
    if t.op == "empty":
        return t if not b else notb(t)
    return mk("empty", mk("list", s))


def such(s, which):
    """the first / last element of a filtered list"""
    src, e, g, val = s.a
    x = chosen(which, e.a[0], e, frozenset(g))
    return subst(val, {e: x})


def empty(v):
    if v.op == "alt":
        return alt([(g, empty(w)) for g, w in v.a[0]])
    if v.op == "c" and v.a[0] in ("str", "bytes"):
        return B(len(v.a[1]) == 0)
    if v.op == "list":
        if any(s.op == "one" for s in v.a):
            return FALSE
        r = TRUE
        for s in v.a:
            if s.op == "all":
                r = and_(r, empty(s.a[0]))
            else:
                r = and_(r, none_such(s) if s.a[2] else empty(s.a[0]))
        return r
    if v.op == "cat":
        if any(p.op == "c" and p.a[1] for p in v.a):
            return FALSE
    if v.op == "app" and v.a[0] in ("sort", "rev"):
        return empty(v.a[2][0])
    return mk("empty", v)


def length(v):
    if v.op == "alt":
        return alt([(g, length(w)) for g, w in v.a[0]])
    if v.op == "list" and all(s.op == "one" for s in v.a):
        return C("int", len(v.a))
    if v.op == "c" and v.a[0] in ("str", "bytes"):
        return C("int", len(v.a[1]) if v.a[0] == "bytes" else len(v.a[1].encode()))
    if v.op == "list" and len(v.a) == 1 and v.a[0].op == "comp" and not v.a[0].a[2]:
        return length(v.a[0].a[0])
    if v.op == "app" and v.a[0] in ("sort", "rev"):
        return length(v.a[2][0])
    if v.op == "app" and v.a[0] == "after_resize":
        return v.a[2][1]
    return mk("len", v)


def last_of(v):
    if v.op == "alt":
        return mapalt(v, last_of)
    if v.op == "list" and v.a and v.a[-1].op == "one":
        return v.a[-1].a[0]
    if v.op == "list" and len(v.a) == 1 and v.a[0].op == "all":
        return last_of(v.a[0].a[0])
    if v.op == "app" and v.a[0] == "rev":
        return index(v.a[2][0], C("int", 0))
    return mk("app", "last", (), (v,))


def index(v, i):
    if v.op == "alt":
        return alt([(g, index(w, simp(i, g))) for g, w in v.a[0]])
    if i.op == "alt":
        return alt([(g, index(v, w)) for g, w in i.a[0]])
    if i.op == "bin" and i.a[0].startswith("Sub") and i.a[1] is length(v) and i.a[2] is C("int", 1):
        return last_of(v)
    if v.op == "upd":
        if v.a[1] == ("idx", i):
            return v.a[2]
        if i.op == "c" and isinstance(v.a[1], tuple) and v.a[1][0] == "idx" and v.a[1][1].op == "c":
            return index(v.a[0], i)
    if i.op == "app" and i.a[0] == "pos":
        e = i.a[2][0]
        if e.a[0] is v:
            return e
        if v.op == "list" and len(v.a) == 1 and v.a[0].op == "comp" and v.a[0].a[0] is e.a[0] and not v.a[0].a[2]:
            return subst(v.a[0].a[3], {v.a[0].a[1]: e})
    if i.op == "c" and i.a[0] == "int":
        n = int(i.a[1])
        if v.op == "app" and v.a[0] == "tail":
            return index(v.a[2][0], C("int", n + 1))
        if v.op == "list":
            k = 0
            for s in v.a:
                if s.op != "one":
                    if k == n or True:
                        rest = mk("list", *v.a[k:]) if k else v
                        m = n - k
                        if len(rest.a) == 1 and rest.a[0].op == "comp" and rest.a[0].a[2] and m == 0 and rest.a[0].a[1].op == "elem":
                            return such(rest.a[0], "first")
                        if len(rest.a) == 1 and rest.a[0].op == "comp" and not rest.a[0].a[2]:
                            src, ev, g, val = rest.a[0].a
                            return subst(val, {ev: index(src, C("int", m))})
                        if len(rest.a) == 1 and rest.a[0].op == "all":
                            return index(rest.a[0].a[0], C("int", m))
                    break
                if k == n:
                    return s.a[0]
                k += 1
    if v.op == "map":
        for kk, vv in v.a[0]:
            if kk is i:
                return vv
    return mk("idx", v, i)


# ---------------------------------------------------------------- strings

def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "c" and q.a[0] == "char":
                q = S(q.a[1])
            if q.op == "c" and q.a[0] == "str":
                if q.a[1] == "":
                    continue
                if out and out[-1].op == "c" and out[-1].a[0] == "str":
                    out[-1] = S(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


# ---------------------------------------------------------------- substitution

def subst(t, m, memo=None):
    """replace leaf terms"""
    if memo is None:
        memo = {}
    ks = frozenset(m)

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            if not (x.lv & ks) and not any(k.op not in LEAF for k in ks):
                return x
            if x in memo:
                return memo[x]
            e = bound(x)
            if e is not None and e in m:
                r = under(x, e)
            else:
                r = rebuild(x, tuple(go(y) for y in x.a))
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x

    def under(x, e):
        """the element bound here is another than the one replaced"""
        src = go(x.a[0])
        e2 = mk("elem", src, e.a[1])
        m2 = {k: v for k, v in m.items() if k is not e}
        if e2 is not e:
            m2[e] = e2
        memo2 = {}
        f = lambda y: subst(y, m2, memo2) if m2 else y
        if x.op == "comp":
            g = frozenset((f(a), b) for a, b in x.a[2]) if x.a[2] else x.a[2]
            return rebuild(x, (src, e2, g, f(x.a[3])))
        t = x.a[1]
        return rebuild(x, (src, (t[0], e2, frozenset((f(a), b) for a, b in t[2]))))
    return go(t)


def bound(x):
    """the element bound by a term, taken from the term's own list"""
    if x.op == "comp" and x.a[1].op == "elem" and x.a[1].a[0] is x.a[0]:
        return x.a[1]
    if x.op == "elem" and isinstance(x.a[1], tuple) and len(x.a[1]) == 3 and isinstance(x.a[1][1], T) and x.a[1][1].op == "elem" and x.a[1][1].a[0] is x.a[0] and not isinstance(x.a[1][1].a[1], tuple):
        return x.a[1][1]
    return None


def rebuild(x, a):
    if a == x.a:
        return x
    op = x.op
    if op == "f":
        return field(a[0], a[2], a[1])
    if op == "alt":
        return alt([(ext(EMPTY, g), v) for g, v in a[0] if ext(EMPTY, g) is not None])
    if op == "eq":
        return eq(*a)
    if op == "is":
        return isv(*a)
    if op == "not":
        return notb(a[0])
    if op == "list":
        return lst(*a)
    if op == "comp":
        return comp(*a)
    if op == "idx":
        return index(*a)
    if op == "empty":
        return empty(a[0])
    if op == "len":
        return length(a[0])
    if op == "cat":
        return cat(a)
    if op == "or":
        ds = []
        for d in a[0]:
            e = ext(EMPTY, d)
            if e is not None:
                ds.append(e)
        fs = mk_or(ds)
        if not ds:
            return FALSE
        if not fs:
            return TRUE
        if len(fs) == 1:
            (t, b), = fs
            return t if b else notb(t)
        return mk("or", frozenset([fs]))
    if op == "upd":
        k = a[1]
        if k[0] == "idx":
            return mk("upd", *a)
        return with_field(a[0], k[1], k[0], a[2])
    return mk(op, *a)


def subst_facts(F, m, memo=None):
    out = []
    for a, b in F:
        t = subst(a, m, memo)
        if t.op == "alt":
            fs = assume(EMPTY, t, b)
            if fs is not None:
                out.extend(fs)
            else:
                out.append((FALSE, True))
        else:
            out.append((t, b))
    return ext(EMPTY, out)


# ---------------------------------------------------------------- traversal, printing

def walk(t, seen=None):
    """every subterm, facts in guards included"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def data(t, seen=None):
    """every subterm that contributes data (guards left out)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "alt":
            stack.extend(v for _, v in x.a[0])
        elif x.op == "comp":
            stack.extend((x.a[0], x.a[3]))
        elif x.op == "or":
            continue
        else:
            def put(y):
                if isinstance(y, T):
                    stack.append(y)
                elif isinstance(y, (tuple, frozenset)):
                    for z in y:
                        put(z)
            for y in x.a:
                put(y)


class Budget(Exception):
    pass


def show(t, limit=4000):
    """printable form: list elements are named and defined after the term"""
    names, todo = {}, []
    out = []
    left = [limit]

    def put(s):
        out.append(s)
        left[0] -= len(s)
        if left[0] < 0:
            raise Budget()

    def seq(xs, sep=", "):
        for k, x in enumerate(xs):
            if k:
                put(sep)
            go(x)

    def fact(f):
        if not f[1]:
            put("!")
        go(f[0])

    def go(t):
        if not isinstance(t, T):
            if isinstance(t, frozenset):
                put("{")
                for k, f in enumerate(sorted(t, key=lambda f: (f[0].n, f[1]))):
                    if k:
                        put(", ")
                    fact(f)
                put("}")
            elif isinstance(t, tuple):
                put("(")
                seq(t)
                put(")")
            else:
                put(str(t))
            return
        o, a = t.op, t.a
        if o == "elem":
            if t not in names:
                names[t] = "e%d" % (len(names) + 1)
                todo.append(t)
            put(names[t])
        elif o == "c":
            put(repr(a[1]) if a[0] == "str" else "b" + str(list(a[1])) if a[0] == "bytes" else str(a[1]))
        elif o == "sym":
            put(a[0])
        elif o == "f":
            go(a[0])
            put("." + (("%s." % a[1]) if a[1] else "") + a[2])
        elif o == "adt":
            put(a[1] or a[0].split("::")[-1])
            if a[2]:
                put("{")
                for k, (n, v) in enumerate(zip(a[2], a[3])):
                    put((", " if k else "") + n + ":")
                    go(v)
                put("}")
        elif o == "app":
            put(a[0].split("::")[-1] + "(")
            seq(a[2])
            put(")")
        elif o == "alt":
            put("alt[")
            for k, (g, v) in enumerate(a[0]):
                if k:
                    put(" | ")
                go(g)
                put(" => ")
                go(v)
            put("]")
        elif o == "is":
            go(a[0])
            put("?" + a[1])
        elif o == "eq":
            put("(")
            go(a[0])
            put(" == ")
            go(a[1])
            put(")")
        elif o == "not":
            put("!")
            go(a[0])
        elif o == "one":
            go(a[0])
        elif o == "all":
            put("*")
            go(a[0])
        elif o == "list":
            put("[")
            seq(a)
            put("]")
        elif o == "comp":
            put("<")
            go(a[3])
            put(" for ")
            go(a[1])
            put(" if ")
            go(a[2])
            put(">")
        elif o == "or":
            put("OR(")
            for k, d in enumerate(sorted(a[0], key=lambda d: sorted((f[0].n, f[1]) for f in d))):
                if k:
                    put(" | ")
                go(d)
            put(")")
        else:
            put(o + "(")
            seq(a)
            put(")")
    try:
        go(t)
        first = True
        while todo:
            e = todo.pop(0)
            put(" where " if first else "; ")
            first = False
            put(names[e] + " = ")
            d = e.a[1]
            if isinstance(d, tuple):
                put(str(d[0]) + " ")
                go(d[1:])
            put(" in ")
            go(e.a[0])
    except Budget:
        out.append("...")
    return "".join(out)
