"""Routes: which service and mediators a message goes by, and how it is wrapped for them."""
from unpack import *
from compose import branch, cut_of, made_by
from pack import json_text, fails, NOTHING
from sign import did_cut, is_did, branches, hash_of, cuts_of, did_of
from routing import FORWARD
from interp import binop, lt

TYP = "application/didcomm-plain+json"
PROFILE = "didcomm/v2"


def loop_parts(v):
    """(list, element, {carried value: (first, next)}, the value carried out) of a loop over a list"""
    if v.op != "loopv":
        return None
    L, e, ph, init, back = v.a
    return L, e, ph, init, back


def copy_of(x, H):
    """is the map x that of H, entry by entry"""
    if x is H or eta(x) is H:
        return True
    lp = loop_parts(x)
    if lp:
        L, e, ph, init, back = lp
        return L is H and init.op == "map" and not init.a[0] and back.op == "app" and last(back.a[0]) == "map_insert" and back.a[2] == (ph, field(e, "0"), field(e, "1"))
    return False


def onion(ctx, rep):
    """each mediator on the route gets the message for the next hop, sealed for it alone"""
    rule = "wrapped for the route"
    cuts = cuts_of(ctx, rep, rule, "anoncrypt")
    if cuts is None:
        return
    L = Layer(ctx, rep, rule, "wrap_in_forward", ("msg", "headers", "to", "keys", "alg", "dids"), None, optional=False, cuts=cuts)
    if L.k is None:
        return
    msg, headers, to, keys, alg, dids = L.args
    M = shape_of(ctx, ("id", "type", "body", "from_prior"), "Message")
    AT = shape_of(ctx, ("data", "media_type", "lastmod_time"), "Attachment")
    if M is None or AT is None:
        rep.unk(rule, L.w, "message or attachment not found")
        return
    n = 0
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in cs:
                for g, x in cases(pick(v, c)):
                    e = ext(c.F, g)
                    for c2 in (split(e) if e is not None else ()):
                        n += 1
                        wrapped(ctx, rep, rule, L, c2, c2.n(x) if x.op != "loopv" else x, M, AT)
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    if not n:
        rep.judge(rule, L.w, False, "nothing is ever wrapped", L.r.value)
    refusals(rep, L, [
        ("=", lambda a, b: a.op == "is" and cut_of(a.a[0], "anoncrypt") and (a.a[1] == "Err") == b),
        ("Malformed", lambda c: fails(c, "from_str", "from_slice", "json")),
        ("InvalidState", lambda c: fails(c, "to_string", "to_vec", "to_value")),
    ])


def wrapped(ctx, rep, rule, L, c, x, M, AT):
    msg, headers, to, keys, alg, dids = L.args
    w = L.w
    if x is msg and c.holds(empty(keys)):
        rep.ok(rule, w + ", no mediators")
        return
    lp = loop_parts(x)
    if lp is None:
        rep.judge(rule, w, False, "what comes out is " + show(x, 120), x)
        return
    E, e, ph, init, back = lp
    if init is not msg:
        rep.judge(rule, w + ", innermost", False, "wrapping starts from " + show(init, 80), init)
    else:
        rep.ok(rule, w + ", innermost")
    carried = sym("carried")

    def j(what, good, detail, *t):
        rep.judge(rule, w + ", " + what, good, detail, *[subst(y, {ph: carried}) for y in t])
    rv = mk("app", "rev", (), (keys,))
    if E is not rv and any(z.op == "app" and z.a[0] in ("windows", "chunks", "zip", "rsplit", "split") for z in walk(E)):
        rep.unk(rule, w, "goes over " + show(E, 100))
        return
    if E is not rv:
        j("outermost first in the route", False, "wraps for " + show(E, 100), E)
        return
    ok(rep, rule, w + ", every mediator, the last first")
    for g, y in cases(back):
        call = made_by(y)
        if not cut_of(call, "anoncrypt") or y is not field(okof(call), "0"):
            j("sealed", False, "carries on with " + show(y, 120), y)
            continue
        if len(call.a[2]) != 4:
            rep.unk(rule, w, "anoncrypt takes other arguments")
            continue
        a_to, a_dids, a_text, a_alg = call.a[2]
        j("sealed for the mediator", a_to is e, "sealed for " + show(a_to, 80), a_to)
        j("resolver", a_dids is dids, "is " + show(a_dids, 80), a_dids)
        j("algorithm", a_alg is alg, "is " + show(a_alg, 80), a_alg)
        m, _ = json_text(bare(a_text))
        if m is None:
            j("forward message", False, "seals " + show(a_text, 120), a_text)
            continue
        j("type", M(m, "type") is S(FORWARD), "is " + show(M(m, "type"), 80), M(m, "type"))
        j("media type", M(m, "typ") is S(TYP), "is " + show(M(m, "typ"), 80), M(m, "typ"))
        ids = [z for z in walk(M(m, "id")) if z.op == "app" and last(z.a[0]) in ("new_v4",)]
        j("fresh id", bool(ids) and not any(z.op == "s" for z in M(m, "id").lv), "is " + show(M(m, "id"), 80), M(m, "id"))
        # the next hop
        body = M(m, "body")
        ents = body.a[3][0].a[0] if body.op == "adt" and body.a[1] == "Object" and body.a[3][0].op == "map" else None
        if ents is None or len(ents) != 1:
            j("body", False, "is " + show(body, 100), body)
        else:
            (kx, nx), = ents
            nx = nx.a[3][0] if nx.op == "adt" and nx.a[1] == "String" else nx
            j("body", kx is S("next") or kx == "next", "names " + str(kx)[:60], body)
            j("next hop", next_hop(L, nx, e, keys, to), "is " + show(nx, 160), nx)
        # what is forwarded
        for g2, atts in cases(M(m, "attachments")):
            one = atts.a[3][0] if atts.op == "adt" and atts.a[1] == "Some" else None
            at = one.a[0].a[0] if one is not None and one.op == "list" and len(one.a) == 1 and one.a[0].op == "one" else None
            d = AT(at, "data") if at is not None else None
            js = d.a[3][0] if d is not None and d.op == "adt" and d.a[1] == "Json" else None
            val = field(js, "json") if js is not None else None
            good = val is not None and val.op == "f" and val.a[1] == "Ok" and last(val.a[0].a[0]) in ("from_str", "from_slice", "json") and bare(val.a[0].a[2][0]) is ph
            j("attached", good, "is " + show(val if val is not None else atts, 160), val if val is not None else atts)
        # headers
        H = someof(headers)
        for g3, hs in cases(M(m, "extra_headers")):
            e3 = ext(c.F, frozenset(f for f in g3 if ph not in f[0].lv))
            if e3 is None or not sat(e3):
                continue
            if c_is(e3, headers, "None"):
                j("no headers", hs.op == "map" and not hs.a[0], "has " + show(hs, 100), hs)
            elif c_is(e3, headers, "Some"):
                t = loop_parts(hs)
                j("headers", copy_of(hs, H), "are " + show(hs, 160), *([subst(t[4], {t[2]: carried}), t[0], t[3]] if t else [hs]))
            else:
                j("headers", False, "are %s whether headers are given or not" % show(hs, 100), hs)


def ok(rep, rule, w):
    rep.ok(rule, w)


def c_is(F, x, v):
    return (isv(x, v, OPT), True) in F or (isv(x, "Some" if v == "None" else "None", OPT), False) in F


def next_hop(L, x, e, keys, to):
    """is x the hop after e on the way over keys to `to`"""
    info = L.r.ip.phis.get(x)
    if x.op == "phi" and info:
        return info[0] is to and info[1] is e
    rest = mk("app", "tail", (), (keys,))
    rv = mk("app", "rev", (), (keys,))
    back = mk("app", "from_end", (), (e,))

    def on(z):
        """the entry beside e of the mediators but the first, and then `to` - or, from the end, of `to` and then the mediators"""
        if z.op != "elem" or z.a[0].op != "list" or len(z.a[0].a) != 2:
            return None
        p, q = z.a[0].a
        if z.a[1] == ("zip", e) and p.op == "all" and p.a[0] is rest and q.op == "one" and q.a[0] is to:
            return "1", "0", rest
        if z.a[1] == ("zip", back) and q.op == "all" and q.a[0] is rv and p.op == "one" and p.a[0] is to:
            return "0", "1", rv
        return None
    if on(x):
        return True
    seen = set()
    nx = binop("Add", mk("app", "pos", (), (e,)), C("int", 1))
    for g, y in cases(x):
        if y is to and ((lt(nx, length(keys)), False) in g or (lt(nx, mk("len", keys)), False) in g):
            seen.add("end")
            continue
        if y.op == "idx" and y.a[0] is keys and y.a[1] is nx or y is index(keys, nx):
            seen.add("next")
            continue
        for a, b in g:
            o = on(a.a[0]) if a.op == "is" and b else None
            if o:
                if a.a[1] == o[0] and y is to:
                    seen.add("end")
                    break
                if a.a[1] == o[1] and y.op == "elem" and y.a[0] is o[2]:
                    seen.add("next")
                    break
        else:
            return False
    return len(seen) == 2


# ---------------------------------------------------------------- which way

KINDS = "didcomm::did::did_doc::ServiceKind"


class Route(object):
    """the terms a route is told in"""

    def __init__(self, ctx, dids):
        self.dids = dids
        self.kinds = TM.ENUMS.get(ctx.adt("ServiceKind")) or ("DIDCommMessaging", "Other")

    def offer(self, s):
        """(the test that s is a DIDComm service, what it offers)"""
        e = field(s, "service_endpoint")
        return isv(e, "DIDCommMessaging", self.kinds), field(e, "value", "DIDCommMessaging")

    def services(self, did):
        return field(someof(okof(self.asked(did))), "service")

    def asked(self, did):
        did = self.c.n(did)
        for x in self.resolves:
            if self.c.n(x.a[2][1]) is did or pick(x.a[2][1], self.c) is did:
                return x
        return NOTHING

    def look(self, c):
        """the questions asked of the resolver"""
        self.c, self.resolves = c, []
        for a, _ in c.G:
            for x in walk(a):
                if x.op == "app" and last(x.a[0]) == "resolve" and x.a[2][0] is self.dids and x not in self.resolves:
                    self.resolves.append(x)
        return self

    def ways(self, s):
        """the ways a service can be suitable: facts"""
        t, o = self.offer(s)
        acc = field(o, "accept")
        l = someof(acc)
        yield (t, True), (isv(acc, "None", OPT), True)
        yield (t, True), (isv(acc, "Some", OPT), True), (empty(l), True)
        yield (t, True), (isv(acc, "Some", OPT), True), (empty(l), False)

    def suitable(self, c, s):
        t, o = self.offer(s)
        acc = field(o, "accept")
        if not c.holds(c.n(t)) and c.variant(field(s, "service_endpoint")) != "DIDCommMessaging":
            return False
        for c2 in branch(c, acc):
            l = c2.n(someof(acc))
            if c2.some(acc) and not c2.holds(empty(l)) and not among(c2, l, S(PROFILE)):
                return False
        return True

    def unfit(self, F, s, *more):
        """no service that is so is suitable, under F"""
        l = someof(field(self.offer(s)[1], "accept"))
        for n, way in enumerate(self.ways(s)):
            e = ext(F, frozenset(way + more)) if F is not None else None
            for c in split(e) if e is not None and sat(e) else ():
                if n < 2:
                    return False
                # one that has the profile in its list
                if absurd(c) or c.holds(A("contains", c.n(l), S(PROFILE)), False):
                    continue
                y, F2 = with_element(c.G, c.n(l), "p")
                if not impossible(F2, (eq(y, S(PROFILE)), True)):
                    return False
        return True


def did(c, x, sign=True):
    """x is known to be (not to be) a DID, what it is asked of being settled by the reading"""
    for a, b in c.G:
        if b == sign and cut_of(a, "is_did") and pick(a.a[2][0], c) is c.n(x):
            return a
    return is_did(c, x, sign)


def list_parts(x, c):
    if x.op == "list":
        return [(p.op, pick(p.a[0], c)) for p in x.a if not (p.op == "all" and p.a[0].op == "list" and not p.a[0].a)]
    return [("all", x)]


def way_to(ctx, rep):
    """the service and mediators a message goes by are those the documents name"""
    rule = "route taken"
    cuts = cuts_of(ctx, rep, rule, "wrap_in_forward")
    if cuts is None:
        return
    L = Layer(ctx, rep, rule, "wrap_in_forward_if_needed", ("msg", "to", "dids", "opts"), None, cuts=cuts + tuple(did_cut(ctx, rep, rule)), peel=True)
    if L.k is None:
        return
    msg, to, dids, opts = L.args
    sid, headers = field(opts, "messaging_service"), field(opts, "forward_headers")
    R = Route(ctx, dids)
    n = 0
    for tag, v, cs, F in L.cases():
        if tag in ("taken", "other"):
            for c0 in cs:
                for c in branches(c0, lambda c: sid, hash_of(to), lambda c: headers if tag == "taken" else None):
                    R.look(c)
                    w = L.w + (", a service asked for" if c.some(sid) else ", any service")
                    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                    known = [a for a, _ in c.G]
                    SL = c.n(R.services(did_of(c, to)))
                    if tag == "other":
                        j("not wrapped", not_needed(c, R, SL, sid, opts, to), "left as it is where " + showf(c.G), *known)
                        continue
                    n += 1
                    j("asked for", c.holds(field(opts, "forward")), "wrapped though that was turned off", *known)
                    W = made_by(pick(field(v, "0"), c))
                    if not cut_of(W, "wrap_in_forward") or len(W.a[2]) != 6:
                        j("wrapped", False, "is " + show(W, 120), W)
                        continue
                    j("wrapped, done", c.ok(W) and pick(field(v, "0"), c) is c.n(okof(W)), "handed out though it may have failed", W)
                    a = [pick(x, c) for x in W.a[2]]
                    for x, want, what in ((a[0], msg, "text"), (a[2], to, "addressee"), (a[4], field(opts, "enc_alg_anon"), "algorithm"), (a[5], dids, "resolver")):
                        j(what, x is c.n(want), "is " + show(x, 100), x)
                    h = deep(a[1], c.G)
                    j("headers", h is c.n(headers) or (h.op == "adt" and (h.a[1] == "None" and c.holds(isv(headers, "None", OPT)) or h.a[1] == "Some" and c.some(headers) and same_struct(c, h.a[3][0], c.n(someof(headers))))), "are " + show(h, 100), h)
                    meta = field(v, "1")
                    s0 = pick(field(meta, "id"), c)
                    if c.some(sid) and s0 is c.n(someof(sid)):
                        named = [s for s in chosen_of(c, SL) if c.holds(eq(c.n(field(s, "id")), s0))]
                        s0 = named[0] if named else s0
                    s0 = s0.a[0] if s0.op == "f" and s0.a[2] == "id" else s0
                    if s0.op not in ("elem", "idx") or c.n(s0.a[0]) is not SL:
                        j("service", False, "told as " + show(s0, 120), s0)
                        continue
                    rep.ok(rule, w + ", service told")
                    j("service is suitable", R.suitable(c, s0), "is used where " + showf(c.G), *known)
                    if c.some(sid):
                        j("service asked for", c.holds(eq(c.n(field(s0, "id")), c.n(someof(sid)))), "another is used", *known)
                    else:
                        j("preferred service", first_fit(c, R, s0), "is " + show(s0, 160), s0)
                    o = R.offer(s0)[1]
                    uri, rk = c.n(field(o, "uri")), c.n(field(o, "routing_keys"))
                    keys = list_parts(deep(a[3], c.G), c)
                    end = pick(field(meta, "service_endpoint"), c)
                    if did(c, uri) is not None:
                        SL1 = c.n(R.services(uri))
                        s1 = end
                        while s1.op == "f":
                            s1 = s1.a[0]
                        if s1.op not in ("elem", "idx") or c.n(s1.a[0]) is not SL1:
                            j("mediator's service", False, "the endpoint is " + show(end, 120), end)
                            continue
                        o1 = R.offer(s1)[1]
                        j("mediator's service is suitable", R.suitable(c, s1), "is used where " + showf(c.G), *known)
                        j("mediator's preferred service", first_fit(c, R, s1), "is " + show(s1, 160), s1)
                        j("mediator's endpoint", end is c.n(field(o1, "uri")), "is " + show(end, 120), end)
                        j("endpoint is an address", did(c, end, False) is not None, "may be yet another DID", *known)
                        j("mediators", keys == [("one", uri), ("all", rk)], "are " + show(a[3], 160), a[3])
                    else:
                        j("endpoint", end is uri, "is " + show(end, 120), end)
                        j("endpoint is an address", did(c, uri, False) is not None, "may be a DID", *known)
                        j("mediators", keys == [("all", rk)], "are " + show(a[3], 160), a[3])
                        j("some mediator", c.holds(empty(rk), False), "wrapped for nobody", *known)
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    if not n:
        rep.judge(rule, L.w, False, "nothing is ever wrapped", L.r.value)

    def each(f):
        def g(c):
            for c2 in branches(c, lambda c: sid, hash_of(to)):
                R.look(c2)
                if not f(c2, c2.n(R.services(did_of(c2, to)))):
                    return None
            return sid
        return g

    def not_offered(c, SL):
        if not c.some(sid):
            return False
        z, F = with_element(c.G, SL, "c")
        return R.unfit(F, z, (eq(field(z, "id"), someof(sid)), True)) or any(
            R.unfit(c.F, s) for s in chosen_of(c, SL) if c.holds(eq(c.n(field(s, "id")), c.n(someof(sid)))))

    def no_way_on(c, SL):
        for x in R.resolves:
            u = pick(x.a[2][1], c)
            s = made_by(u)
            if s.op in ("elem", "idx") and c.n(s.a[0]) is SL:
                SL1 = c.n(R.services(u))
                z, F = with_element(c.G, SL1, "c")
                if R.unfit(F, z):
                    return True
                for s1 in chosen_of(c, SL1):
                    if did(c, field(R.offer(s1)[1], "uri")) is not None:
                        return True
        return False
    refusals(rep, L, [
        ("DIDNotResolved", lambda a, b: not_found(a, b, dids, None)),
        ("=", lambda a, b: resolver_failed(a, b, dids)),
        ("=", lambda a, b: a.op == "is" and cut_of(a.a[0], "wrap_in_forward") and (a.a[1] == "Err") == b),
        ("IllegalArgument", each(not_offered)),
        ("InvalidState", each(no_way_on)),
    ])


def chosen_of(c, SL):
    out = []
    for a, _ in c.G:
        for x in walk(a):
            if x.op in ("elem", "idx") and c.n(x.a[0]) is SL and c.n(x) not in out:
                out.append(c.n(x))
    return out


def not_needed(c, R, SL, sid, opts, to):
    if c.holds(field(opts, "forward"), False):
        return True
    if not c.some(sid):
        z, F = with_element(c.G, SL, "c")
        if R.unfit(F, z):
            return True
    for s in chosen_of(c, SL):
        o = R.offer(s)[1]
        if c.holds(empty(c.n(field(o, "routing_keys")))) and did(c, field(o, "uri"), False) is not None and R.suitable(c, s):
            return c.holds(eq(c.n(field(s, "id")), c.n(someof(sid)))) if c.some(sid) else first_fit(c, R, s)
    return False


def first_fit(c, R, s):
    """no service before s is suitable"""
    if s.op == "idx" and s.a[1] is C("int", 0):
        return True
    if not (s.op == "elem" and isinstance(s.a[1], tuple) and len(s.a[1]) == 3 and s.a[1][0] == "first"):
        return False
    y = mk("elem", s.a[0], "y")
    g = subst_facts(s.a[1][2], {s.a[1][1]: y})
    if not g:
        return bool(g is not None)
    F = ext(EMPTY, negfacts(told_apart(g)))
    return R.unfit(F, y)
