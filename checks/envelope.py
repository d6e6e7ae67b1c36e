"""Reading encrypted and signed envelopes."""
from common import *
from panics import no_panics
from errors import holding, carrying, contains, malformed_unless, subterms
from model import error_of, ERR

RES = ("Ok", "Err")
OPT = ("None", "Some")


def is_ok(x):
    return (isv(x, "Ok", RES), True)


def is_err(x):
    return (isv(x, "Err", RES), True)


def okof(x):
    return field(x, "0", "Ok")


def walk_all(*ts):
    seen = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        todo.extend(subterms(t))


def apps(name, *ts):
    return [t for t in walk_all(*ts) if t.op == "app" and t.a[0].split("::")[-1] == name]


def urlsafe(cfg):
    """base64url without padding"""
    if cfg.op != "adt":
        return False
    c = field(cfg, "char_set")
    return c.op == "adt" and c.a[1] == "UrlSafe" and field(cfg, "pad") is FALSE


def decoded_of(x, *ts):
    """the base64url decoding of x as it occurs in the given terms"""
    for t in apps("decode_config", *ts):
        if t.a[2][0] is x and urlsafe(t.a[2][1]):
            return t
    for t in apps("decode_config", *ts):
        if t.a[2][0] is x:
            return t
    return None


def parsed_of(x, *ts):
    """the JSON parse of x as it occurs in the given terms"""
    for n in ("from_str", "from_slice", "from_value"):
        for t in apps(n, *ts):
            if t.a[2][0] is x:
                return t
    return None


def member_holding(v, x, depth=3):
    """is x one of the (nested) members of v"""
    for g, w in cases(v):
        if w is x:
            return True
    return False


def jwe_parse(ctx, rep):
    k = find_local(ctx, "parse", "jwe")
    if k is None:
        rep.unk("encrypted envelope parsed", "jwe::parse", "not found")
        return
    w = where(ctx, k)
    text = sym("text")
    r = run(ctx, k, text, lst())
    no_panics(rep, r, w)
    v = r.value
    J = parsed_of(text, v)
    if J is None:
        rep.unk("encrypted envelope parsed", w, "no JSON parse of the text")
        return
    P = decoded_of(field(okof(J), "protected"), v)
    if P is None:
        rep.bad("encrypted envelope parsed", w, "the protected header is not base64url-decoded")
        return
    H = parsed_of(okof(P), v)
    if H is None:
        rep.bad("encrypted envelope parsed", w, "the protected header is not parsed from its decoded bytes")
        return
    apv, apu = decoded_of(field(okof(H), "apv"), v), decoded_of(field(field(okof(H), "apu"), "0", "Some"), v)
    for what, d in (("the protected header", P), ("apv", apv), ("apu", apu)):
        if d is None:
            rep.bad("encrypted envelope parsed", w, what + " is not decoded")
        else:
            rep.judge("base64url without padding", w + ", " + what, urlsafe(d.a[2][1]), "decoded with another alphabet or padding", d)
    if apv is None or apu is None:
        return
    U = field(okof(H), "apu")
    none, some_ = (isv(U, "None", OPT), True), (isv(U, "Some", OPT), True)
    base = [is_ok(J), is_ok(P), is_ok(H), is_ok(apv)]
    jwe = okof(J)
    good = lambda u: result_like(v, {"jwe": jwe, "protected": okof(H), "apu": u, "apv": okof(apv)})
    bad = err(error_of("Malformed"))
    json_bad = lambda x: err(malformed_unless(field(x, "0", "Err"), "serde_json"))
    want = alt([(frozenset(base + [none]), ok(good(NONE))),
                (frozenset(base + [some_, is_ok(apu)]), ok(good(some(okof(apu))))),
                (frozenset(base + [some_, is_err(apu)]), bad),
                (frozenset(base[:3] + [is_err(apv)]), bad),
                (frozenset(base[:2] + [is_err(H)]), json_bad(H)),
                (frozenset(base[:1] + [is_err(P)]), bad),
                (frozenset([is_err(J)]), json_bad(J))])
    rep.same("encrypted envelope parsed", w, v, want, notes=r.notes)


def result_like(v, members):
    """the shape of the Ok value with given members; unnamed members of the actual value are free"""
    for g, x in cases(v):
        if x.op == "adt" and x.a[1] == "Ok":
            for g2, y in cases(x.a[3][0]):
                if y.op == "adt":
                    return adt(y.a[0], y.a[1], y.a[2], tuple(members.get(n, ANY) for n in y.a[2]))
    return ANY


def find_local(ctx, name, mod, self_ty=None, trait=None):
    for k in ctx.find_fn(name, self_ty, trait):
        p = ctx.P.insts[k]["path"]
        if ("::%s::" % mod) in p or p.startswith(mod + "::"):
            return k
    return None


def addressing(ctx, rep):
    """apv is the hash of the sorted recipient ids, apu the sender's id"""
    k = None
    for name in ("verify_didcomm",):
        ks = ctx.find_fn(name, "ParsedJWE")
        if ks:
            k = ks[0]
    if k is None:
        rep.unk("recipients and sender bound", "ParsedJWE::verify_didcomm", "not found")
        return
    w = where(ctx, k)
    x = sym("parsed")
    r = run(ctx, k, x)
    no_panics(rep, r, w)
    L = field(field(x, "jwe"), "recipients")
    e = mk("elem", L, 0)
    kids = lst(comp(L, e, EMPTY, field(field(e, "header"), "kid")))
    digest = None
    for t in apps("digest", r.value):
        digest = t
    if digest is None:
        rep.judge("recipients and sender bound", w, False, "no digest is computed", r.value)
        return
    rep.judge("recipients and sender bound", w + ", digest", "Sha256" in str(digest.a[0:2]) + json_types(ctx, digest), "not SHA-256", digest)
    want_text = mk("app", "join", (), (mk("app", "sort", (), (kids,)), S(".")))
    D = mk("app", digest.a[0], digest.a[1], (want_text,))
    same = eq(D, field(x, "apv"))
    apu, skid = field(x, "apu"), field(field(x, "protected"), "skid")
    A, K = field(apu, "0", "Some"), field(skid, "0", "Some")
    utf8 = mk("is_utf8", A)
    for t in walk_all(r.value):
        if t.op == "is_utf8" or (t.op == "app" and t.a[0] == "is_utf8"):
            utf8 = t
    o = lambda y, v_: (isv(y, v_, OPT), True)
    bad = err(error_of("Malformed"))
    good = ok(x)
    want = alt([(frozenset([(same, False)]), bad)] +
               [(ext(frozenset([(same, True)]), frozenset(g)), val) for g, val in (
                   ([o(apu, "None"), o(skid, "None")], good),
                   ([o(apu, "None"), o(skid, "Some")], bad),
                   ([o(apu, "Some"), (utf8, False)], bad),
                   ([o(apu, "Some"), (utf8, True), o(skid, "None")], good),
                   ([o(apu, "Some"), (utf8, True), o(skid, "Some"), (eq(A, K), True)], good),
                   ([o(apu, "Some"), (utf8, True), o(skid, "Some"), (eq(A, K), False)], bad))])
    rep.same("recipients and sender bound", w, r.value, want, notes=r.notes)


def json_types(ctx, t):
    return " ".join(str(ctx.P.tstr(x)) if isinstance(x, int) else str(x) for x in (t.a[1] or ()))


def jws_parse(ctx, rep):
    k = find_local(ctx, "parse", "jws")
    if k is None:
        rep.unk("signed envelope parsed", "jws::parse", "not found")
        return
    w = where(ctx, k)
    text = sym("text")
    r = run(ctx, k, text, lst())
    no_panics(rep, r, w)
    v = r.value
    J = parsed_of(text, v)
    if J is None:
        rep.unk("signed envelope parsed", w, "no JSON parse of the text")
        return
    L = field(okof(J), "signatures")
    P = H = None
    for e in [t for t in walk_all(v) if t.op == "elem" and t.a[0] is L]:
        P = P or decoded_of(field(e, "protected"), v)
    if P is None:
        rep.bad("signed envelope parsed", w, "the protected headers are not decoded")
        return
    e0 = P.a[2][0].a[0]
    H = parsed_of(okof(P), v)
    if H is None:
        rep.bad("signed envelope parsed", w, "a protected header is not parsed from its decoded bytes")
        return
    rep.judge("base64url without padding", w + ", protected header", urlsafe(P.a[2][1]), "decoded with another alphabet or padding", P)
    e = mk("elem", L, 0)
    P, H = subst(P, {e0: e}), subst(H, {e0: e})
    nop = notexists(L, e, frozenset([is_err(P)]))
    noh = notexists(L, e, frozenset([is_err(H)]))
    nob = notexists(L, e, frozenset([is_ok(P), is_err(H)]))
    headers = lst(comp(L, e, EMPTY, okof(H)))
    good = ok(result_like(v, {"jws": okof(J), "protected": headers}))

    def failure(kv, F):
        return kv.op == "adt" and kv.a[1] == "Malformed" or any(a.op == "is" and b and a.a[1] == "Io" for a, b in F)
    bad = err(adt(ERR, "Error", ("kind", "source"), (pred(failure, "Malformed"), ANY)))
    yes = [is_ok(J)]
    for n in (nop, nob):
        yes += list(n) if isinstance(n, (set, frozenset)) else [n]
    want = alt([(frozenset(yes), good),
                (frozenset([is_ok(J), exists_fact(L, e, frozenset([is_err(P)]))]), bad),
                (frozenset([is_ok(J), exists_fact(L, e, frozenset([is_ok(P), is_err(H)]))]), bad),
                (frozenset([is_err(J)]), bad)])
    rep.same("signed envelope parsed", w, v, want, notes=r.notes)
