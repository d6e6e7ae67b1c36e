"""Error kinds: what the caller is told."""
from common import *
from model import error_of, ERR

KINDS = ("DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "Malformed", "IoError", "InvalidState", "NoCompatibleCrypto", "Unsupported", "IllegalArgument")


def contains(v, x):
    seen = set()
    todo = [v]
    while todo:
        t = todo.pop()
        if t is x:
            return True
        if id(t) in seen:
            continue
        seen.add(id(t))
        todo.extend(subterms(t))
    return False


def subterms(t):
    for p in t.a:
        yield from flat(p)


def flat(p):
    if isinstance(p, TM.T):
        yield p
    elif isinstance(p, (tuple, frozenset, list)):
        for q in p:
            yield from flat(q)


def carrying(*parts):
    return pred(lambda s, F: all(contains(s, x) for x in parts), "a source carrying " + ", ".join(show(x, 60) for x in parts))


def holding(kind, *parts):
    """an error of that kind whose source still carries the given parts"""
    return adt(ERR, "Error", ("kind", "source"), (kind, carrying(*parts)))


def result_cases(x, okv, errv):
    return alt([(frozenset([(isv(x, "Ok", ("Ok", "Err")), True)]), ok(okv)), (frozenset([(isv(x, "Err", ("Ok", "Err")), True)]), err(errv))])


def accessors(ctx, rep):
    """the kind given is the kind reported"""
    e = sym("error")
    k = the_fn(ctx, rep, "kind reported", "kind", "error::Error")
    if k is not None:
        rep.same("kind reported", where(ctx, k), run(ctx, k, e).value, field(e, "kind"))
    kind, x = sym("kind"), sym("cause")
    for name, ty in (("new", "error::Error"), ("msg", "error::Error"), ("err_msg", None)):
        for k in ctx.find_fn(name, ty):
            if not ctx.P.insts[k]["path"].startswith("didcomm::error::"):
                continue
            r = run(ctx, k, kind, x)
            rep.same("kind stored", where(ctx, k), r.value, holding(kind, x), notes=r.notes)


def conversions(ctx, rep):
    """attaching a kind or a message to a result"""
    x, kind, text = sym("result"), sym("kind"), sym("text")
    cause = field(x, "0", "Err")
    value = field(x, "0", "Ok")
    for name, tr in (("kind", "ResultExt"), ("kind_no_context", "ResultExtNoContext"), ("to_error_kind", "ResultExtNoContext"), ("context", "ResultContext")):
        seen = 0
        for k in ctx.find_fn(name, None, tr):
            args = {"context": (x, text), "to_error_kind": (x, kind)}.get(name, (x, kind, text))
            r = run(ctx, k, *args)
            if name == "kind":
                want = holding(kind, cause, text)
            elif name == "kind_no_context":
                want = holding(kind, text)
            elif name == "to_error_kind":
                want = kind
            else:
                want = holding(field(cause, "kind"), field(cause, "source"), text)
            rep.same("conversion keeps kind and cause", "%s [%s]" % (where(ctx, k), ", ".join(targs(ctx, k))), r.value, result_cases(x, value, want), notes=r.notes)
            seen += 1
        if not seen and name in ("kind", "context"):
            rep.bad("conversion keeps kind and cause", "trait " + tr, "no use of it is left in the crate")


def targs(ctx, k):
    return [ctx.P.tstr(a) if isinstance(a, int) else str(a) for a in ctx.P.insts[k]["args"]]


def malformed_unless(cause, src_ty):
    """kind Malformed, except where the library itself failed"""
    own = {"serde_json": ("Io", ("InvalidState", "IoError")), "bs58::decode": ("BufferTooSmall", ("InvalidState",))}
    own = [v for k, v in own.items() if src_ty.startswith(k)]

    def p(k, F):
        if k.op != "adt":
            return False
        if not own:
            return k.a[1] == "InvalidState"
        name, kinds = own[0]
        known = None
        for a, b in F:
            known = known if known is not None else library_failed(a, b, name, cause)
        if known is None and any(contains(a, cause) and told_otherwise(a, cause) for a, b in F):
            return k.a[1] in kinds + ("Malformed",)
        return (known is not True or k.a[1] in kinds) and (known is not False or k.a[1] == "Malformed") and (known is not None)
    return holding(pred(p, "Malformed, or InvalidState where the library itself failed"), cause)


def library_failed(a, b, name, cause):
    """does the fact (a, b) say that the failure is (True) or is not (False) the library's own"""
    if a.op == "or" and b:
        each = set()
        for d in a.a[0]:
            v = [library_failed(x, y, name, cause) for x, y in d]
            each.add(next((w for w in v if w is not None), None))
        return each.pop() if len(each) == 1 else None
    if a.op == "is" and name in a.a[2] and (a.a[0] is cause or is_category(a.a[0], cause)):
        if b:
            return a.a[1] == name
        if a.a[1] == name:
            return False
    return None


def told_otherwise(a, cause):
    """a distinction among the library's failures by something else than its category"""
    if a.op == "or":
        return any(contains(x, cause) and told_otherwise(x, cause) for d in a.a[0] for x, _ in d)
    return not (a.op == "is" and (a.a[0] is cause or is_category(a.a[0], cause)) or a.op == "is" and set(a.a[2]) == {"Ok", "Err"})


def is_category(t, cause):
    return t.op == "app" and t.a[0] == "classify" and t.a[2] == (cause,)


def foreign(ctx, rep):
    """errors of the JSON and base58 libraries"""
    n = {}
    for k, i in enumerate(ctx.P.insts):
        if not i.get("local") or not i.get("body") or i.get("kind") != "fn":
            continue
        t = i.get("trait") or ""
        if i["name"] == "from" and t == "core::convert::From" and i.get("self", "").endswith("error::Error"):
            pass
        elif i["name"] == "to_didcomm" and t.endswith("::ToResult"):
            pass
        else:
            continue
        m = re.search(r"(serde_json::error::Error|bs58::decode::Error|bs58::encode::Error)", i["path"])
        if not m:
            continue
        src = m.group(1)
        n[src] = n.get(src, 0) + 1
        if i["name"] == "from":
            x = sym("cause")
            r = run(ctx, k, x)
            rep.same("library failures", where(ctx, k), r.value, malformed_unless(x, src), notes=r.notes)
        else:
            x, text = sym("result"), sym("text")
            r = run(ctx, k, x, text)
            rep.same("library failures", "%s [%s]" % (where(ctx, k), ", ".join(targs(ctx, k))), r.value,
                     result_cases(x, field(x, "0", "Ok"), malformed_unless(field(x, "0", "Err"), src)), notes=r.notes)
    for s in ("serde_json::error::Error", "bs58::decode::Error"):
        if s not in n:
            rep.unk("library failures", s, "no conversion from it")


def texts(ctx, rep):
    """every kind has its own text; an error shows kind and causes"""
    kinds = ctx.adt("ErrorKind")
    if kinds is None:
        rep.bad("error text", "ErrorKind", "the type is gone")
        return
    names = [v["name"] for v in ctx.P.adts[kinds]["variants"]]
    for n in KINDS:
        rep.judge("error kinds", "enum %s, variant %s" % (kinds, n), n in names, "the kind is gone")
    k = [k for k in ctx.find_fn("fmt", kinds, "Display")]
    e = [k for k in ctx.find_fn("fmt", "error::Error", "Display")]
    if k:
        seen = {}
        for n in names:
            v = displayed(ctx, k[0], adt(kinds, n, (), ()))
            if v is None or v.op != "c":
                rep.unk("error text", where(ctx, k[0]) + ", " + n, "text not constant")
                continue
            rep.judge("error text", where(ctx, k[0]) + ", " + n, v.a[1] != "" and v.a[1] not in seen, "same text as " + seen.get(v.a[1], ""))
            seen[v.a[1]] = n
    else:
        rep.unk("error text", kinds, "the kinds have no text")
    if not e:
        rep.unk("error text", "Error", "errors have no text")
    else:
        x = sym("error")
        v = displayed(ctx, e[0], x)
        rep.judge("error text", where(ctx, e[0]), v is not None and contains(v, field(x, "kind")) and contains(v, field(x, "source")), "kind or cause not shown", v)


def displayed(ctx, k, v):
    """what a Display implementation writes"""
    return run(ctx, k, v, S("")).after(2)
