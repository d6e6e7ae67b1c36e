"""Forward messages and routing."""
from common import *
from envelope import *
from panics import no_panics

FORWARD = "https://didcomm.org/routing/2.0/forward"


def recognise(ctx, rep):
    """a Forward message is told apart and taken apart exactly"""
    k = the_fn(ctx, rep, "forward recognised", "try_parse_forward")
    if k is None:
        return
    m = sym("msg")
    r = run(ctx, k, m)
    v = r.value
    w = where(ctx, k)
    JV = "serde_json::value::Value"
    names = TM.ENUMS.get(JV) or ("Null", "Bool", "Number", "String", "Array", "Object")
    body = field(m, "body")
    t = (eq(field(m, "type_"), S(FORWARD)), True)
    obj = (isv(body, "Object", names), True)
    got = None
    for x in apps("map_get", v):
        if contains(x, body):
            got = x
    if got is None:
        others = [x for x in walk(v, set()) if x.op == "app"]
        if others or r.notes:
            rep.unk("forward recognised", w, "no look-up of the next hop that is followed")
        else:
            rep.bad("forward recognised", w, "the next hop is never looked up: the result is " + show(v, 300))
        no_panics(rep, r, w)
        return
    rep.judge("forward recognised", w + ", next hop", got.a[2][1] is S("next"), "read from another member", got)
    got = mk("app", got.a[0], got.a[1], (field(body, "0", "Object"), S("next")))
    nxt = field(got, "0", "Some")
    A = field(m, "attachments")
    L = field(A, "0", "Some")
    first = mk("idx", L, C("int", 0))
    AD = ctx.adt("AttachmentData")
    vs = TM.ENUMS[AD]
    yes = [t, obj, (isv(got, "Some", OPT), True), (isv(nxt, "String", names), True), (isv(A, "Some", OPT), True), (empty(L), False),
           (isv(field(first, "data"), "Json", vs), True)]
    val = some(adt_like(v, {"msg": m, "next": field(nxt, "0", "String"), "forwarded_msg": field(field(field(first, "data"), "value", "Json"), "json")}))
    cs = [(frozenset(yes), val)]
    for n in range(len(yes)):
        a, b = yes[n]
        cs.append((frozenset(yes[:n] + [(a, not b)]), NONE))
    rep.same("forward recognised", w, v, alt(cs), notes=r.notes)
    no_panics(rep, r, w)


def adt_like(v, members, variant="Some"):
    for g, x in cases(v):
        if x.op == "adt" and x.a[1] == variant:
            for g2, y in cases(x.a[3][0]):
                if y.op == "adt":
                    return adt(y.a[0], y.a[1], y.a[2], tuple(members.get(n, ANY) for n in y.a[2]))
    return ANY
