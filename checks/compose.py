"""How the layers of a message are taken off one after another."""
from unpack import *

LAYERS = ("_try_unpack_anoncrypt", "_try_unpack_authcrypt", "_try_unpack_sign", "_try_unpack_plaintext")
RULE = "layers taken off in order"


def cut_of(x, name):
    return x.op == "app" and x.a[0] == "cut:" + name


def made_by(x):
    while x.op == "f":
        x = x.a[0]
    return x


def out_call(t):
    """the call whose &mut argument t is the state after"""
    m = re.match(r"out\d+:(cut:.*)$", t.a[0]) if t.op == "app" else None
    return mk("app", m.group(1), t.a[1], t.a[2]) if m else None


def text_and_meta(call, others):
    """the text a layer is given and the metadata it is given"""
    rest = [x for x in call.a[2] if eta(x) not in others]
    return (rest[0], rest[1]) if len(rest) == 2 else (None, None)


def branch(c, x):
    """readings in which x is known to be Some or None"""
    if c.variant(x) is not None:
        return [c]
    out = []
    for v in ("Some", "None"):
        e = ext(c.F, frozenset([(isv(x, v, OPT), True)]))
        if e is not None and sat(e):
            out += split(e)
    return out


def composed(ctx, rep):
    fns = {n: ctx.find_fn(n) for n in LAYERS + ("try_parse_forward", "has_key_agreement_secret")}
    ks = ctx.find_fn("unpack", "Message")
    if not ks:
        rep.unk(RULE, "Message::unpack", "not found")
        return
    k = ks[0]
    w = where(ctx, k)
    gone = [n for n in fns if len(fns[n]) != 1]
    if gone:
        rep.unk(RULE, w, "not found: " + ", ".join(gone))
        return
    msg, dids, secrets, opts = args = [sym(x) for x in ("msg", "dids", "secrets", "opts")]
    r = run(ctx, k, *args, cuts=tuple(x for n in fns for x in fns[n]))
    no_panics(rep, r, w)
    if r.notes:
        rep.unk(RULE, w, str(r.notes[0])[:100])
        return
    M = Unwrapping(ctx, rep, w, r, args)
    n = 0
    for F, tag, v in opened(r.value):
        if tag == "Ok":
            for c in split(F):
                n += M.opened(c, v)
        elif tag != "Err":
            rep.unk(RULE, w, "outcome not followed: " + show(v, 100))
    if n == 0:
        M.j("unpacked", False, "no message is ever unpacked", r.value)
    M.refused()


class Unwrapping(object):
    def __init__(self, ctx, rep, w, r, args):
        self.ctx, self.rep, self.w, self.r = ctx, rep, w, r
        self.msg, self.dids, self.secrets, self.opts = args
        self.shape = shape_of(ctx, ("id", "type", "body", "from_prior"), "Message")

    def j(self, what, good, detail, *t):
        rounds = {p: sym("round") for p in self.r.ip.phis}
        self.rep.judge(RULE, self.w + ", " + what, good, detail, *([subst(x, rounds) for x in t] if not good else ()))

    def opened(self, c, v):
        j = self.j
        res, md = [c.n(field(v, n)) for n in ("0", "1")]
        P = made_by(res)
        if not cut_of(P, LAYERS[3]) or res is not someof(okof(P)):
            j("message", False, "hands out " + show(res, 160), res)
            return 1
        j("message", c.ok(P) and c.some(okof(P)), "handed out though reading the plaintext may have failed", P)
        if md.op != "app" or out_call(md) is not P:
            j("metadata", False, "tells " + show(md, 200), md)
            return 1
        j("plaintext's resolver", self.dids in [eta(y) for y in P.a[2]], "another resolver is asked", P)
        chain = [P]
        for name in LAYERS[2::-1]:
            _, md = text_and_meta(chain[-1], (self.dids, self.secrets, self.opts))
            L = out_call(md) if md is not None else None
            if L is None or not cut_of(L, name):
                j(name, False, "%s is given metadata %s" % (chain[-1].a[0][4:], show(md, 160) if md is not None else "of an unknown kind"), chain[-1])
                return 1
            wants = {"_try_unpack_anoncrypt": (self.secrets, self.opts), "_try_unpack_authcrypt": (self.dids, self.secrets, self.opts), "_try_unpack_sign": (self.dids,)}[name]
            j(name + ", resolvers and options", all(x in [eta(y) for y in L.a[2]] for x in wants), "does not get the caller's resolvers and options", L)
            chain.append(L)
        cs = [c]
        for L in chain[1:]:
            cs = [c3 for c2 in cs for c3 in branch(c2, okof(L))]
        for c2 in cs:
            for call, L in zip(chain, chain[1:]):
                name = L.a[0][4:]
                text = text_and_meta(call, (self.dids, self.secrets, self.opts))[0]
                inner = text_and_meta(L, (self.dids, self.secrets, self.opts))[0]
                taken = c2.variant(okof(L)) == "Some"
                j(name + ", not failed", c2.ok(L), "goes on though the layer may have failed", L)
                got, want = pick(text, c2), pick(someof(okof(L)) if taken else inner, c2)
                j(name + ", text handed on", got is want, "%s is given %s %s" % (call.a[0][4:], show(got, 160), "instead of the content of the layer" if taken else "though there was no such layer"), got)
            self.start(c2, chain[-1])
            self.no_more(c2, chain[-1])
        return len(cs)

    def start(self, c, N):
        """the outermost layer is that of the caller's text, or of what was forwarded to us"""
        text, md = text_and_meta(N, (self.secrets, self.opts, self.dids))
        for t, first, what in ((text, lambda x: x is self.msg, "outermost text"), (md, self.nothing_known, "metadata at first")):
            if t is None:
                self.j(what, False, "unknown", N)
                continue
            got = self.r.ip.phis.get(t)
            if got is None and t is text and md in self.r.ip.phis:
                # the text is the same in every round
                _, back, _, _, B = self.r.ip.phis[md]
                for F, x in self.backs(back, B):
                    self.again(F, c, N, True, t)
            if got is None:
                t = pick(t, c)
                self.j(what, first(t), "is " + show(t, 200), t)
                continue
            init, back, _, F0, B = got
            self.j(what, first(init), "is " + show(init, 200), init)
            for F, x in self.backs(back, B):
                self.again(F, c, N, t is text, c.n(x) if False else x)

    def backs(self, back, B):
        for g, x in cases(back):
            e = ext(B, g)
            for c in split(e) if e is not None else ():
                yield c, c.n(x)

    def nothing_known(self, m):
        if m.op != "adt":
            return False
        for x in META:
            y = field(m, x)
            if y is not FALSE and not (y.op == "adt" and y.a[1] == "None"):
                return False
        return True

    def inner(self, N):
        """what is forwarded in the content of layer N, whether we hold its key"""
        p = parsed(self.shape.name, someof(okof(N)))
        return p

    def conditions(self, c, N):
        """(parse, forward, key) as they occur in the facts for layer N"""
        p = self.inner(N)
        fw = key = None
        for a, _ in c.G:
            for x in walk(a):
                if cut_of(x, "try_parse_forward") and c.n(x.a[2][0]) is okof(p):
                    fw = x
                if cut_of(x, "has_key_agreement_secret"):
                    key = x
        return p, fw, key

    def again(self, c, outer, N, is_text, x):
        """going round: only for a forward of something for one of our keys"""
        p, fw, key = self.conditions(c, N)
        j = self.j
        opt = field(self.opts, "unwrap_re_wrapping_forward")
        j("unwrapped on request", c.holds(opt), "forwards are unwrapped without being asked for", *[a for a, _ in c.G])
        j("unwrapped forward", fw is not None and c.ok(N) and c.some(okof(N)) and c.ok(p) and c.some(fw), "unwrapped though it may be no forward", *[a for a, _ in c.G])
        if fw is None:
            return
        good = key is not None and c.ok(key) and c.holds(okof(key)) and c.n(key.a[2][0]) is field(someof(fw), "next") and set(key.a[2][1:]) == {self.dids, self.secrets}
        j("unwrapped if for us", good, "unwrapped though the next hop may be someone else", *[a for a, _ in c.G])
        if is_text:
            y = x.a[0] if x.op == "f" and x.a[1] == "Ok" else x
            j("forwarded text", y.op == "app" and last(y.a[0]) == "to_string" and y.a[2][0] is field(someof(fw), "forwarded_msg"), "goes on with " + show(x, 160), x)
        else:
            after = [t for t in walk(x) if out_call(t) is N]
            if not after:
                j("metadata kept", False, "goes on with " + show(x, 160), x)
                return
            for m in META:
                got = c.n(field(x, m))
                if m == "re_wrapped_in_forward":
                    j("told that it was re-wrapped", got is TRUE, "told as " + show(got, 80), got)
                else:
                    j("metadata kept, " + m, got is c.n(field(after[0], m)), "becomes " + show(got, 100), got)

    def no_more(self, c, N):
        """nothing that ought to be unwrapped is left"""
        p, fw, key = self.conditions(c, N)
        some_ = lambda x: (isv(x, "Some", OPT), True)
        fs = [(field(self.opts, "unwrap_re_wrapping_forward"), True), is_ok(N), some_(okof(N)), is_ok(p)]
        if fw is not None:
            fs.append(some_(fw))
            if key is not None:
                fs += [is_ok(key), (okof(key), True)]
        good = fw is not None and key is not None and impossible(c.G, *fs) or fw is None and impossible(c.G, *fs) or fw is not None and key is None and impossible(c.G, *fs)
        if key is not None:
            self.j("failed look-up of own keys", impossible(c.G, *(fs[:-2] + [is_err(key)])), "a failure to look up our keys is taken for having none", *[a for a, _ in c.G])
        self.j("forwards unwrapped", good, "a forward for one of our keys is handed out itself though unwrapping is asked for", *[a for a, _ in c.G])

    def refused(self):
        """an error is that of a layer, or says that there was no message"""
        class L(object):
            pass
        L.w, L.ctx, L.rounds = self.w, self.ctx, {p: sym("round") for p in self.r.ip.phis}
        outs = []
        for F, tag, v in opened(self.r.value):
            if tag == "Err":
                outs.append(("failed", v, [], F))
        L.cases = lambda: outs
        names = LAYERS + ("has_key_agreement_secret",)
        refusals(self.rep, L, [
            ("=", lambda a, b: a.op == "is" and any(cut_of(a.a[0], n) for n in names) and (a.a[1] == "Err") == b),
            ("Malformed", lambda a, b: a.op == "is" and a.a[1] in OPT and (a.a[1] == "None") == b and a.a[0].op == "f" and cut_of(a.a[0].a[0], LAYERS[3])),
            ("InvalidState", lambda a, b: a.op == "is" and a.a[0].op == "app" and last(a.a[0].a[0]) in ("to_string", "to_vec") and (a.a[1] == "Err") == b),
        ], rule="no failure made up", kinds="failures passed on")


def plaintext(ctx, rep):
    rule = "plaintext read"
    cuts = ctx.find_fn("unpack", "FromPrior")
    L = Layer(ctx, rep, rule, "_try_unpack_plaintext", ("msg", "dids", "md"), cuts=cuts)
    if L.k is None:
        return
    S_ = shape_of(ctx, ("id", "type", "body", "from_prior"), "Message")
    msg, dids = L.args[0], L.args[1]
    p = parsed(S_.name, msg)
    m = okof(p)
    typ, fp = S_(m, "typ"), S_(m, "from_prior")
    n = 0
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in cs:
                for c2 in branch(c, fp):
                    n += 1
                    j = lambda what, good, detail, *t: rep.judge(rule, L.w + ", " + what, good, detail, *t)
                    y = c2.n(v)
                    j("message", same_struct(c2, y, m), "hands out " + show(y, 120), y)
                    j("media type", c2.n(typ) is S("application/didcomm-plain+json"), "accepted with another media type", *[a for a, _ in c2.G])
                    if c2.variant(fp) == "Some":
                        V = [a.a[0] for a, b in c2.G if b and a.op == "is" and a.a[1] == "Ok" and cut_of(a.a[0], "unpack")]
                        V = [x for x in V if c2.n(x.a[2][0]) is someof(fp) and x.a[2][1] is dids]
                        j("rotation checked", bool(V), "accepted though the rotation claim in it was not verified", *[a for a, _ in c2.G])
                        if V:
                            told(rep, L, c2, L.w + ", with rotation", {"from_prior": some(field(okof(V[0]), "0")), "from_prior_issuer_kid": some(field(okof(V[0]), "1"))})
                    else:
                        told(rep, L, c2, L.w + ", without rotation", {})
        elif tag == "other":
            for c in cs:
                rep.judge(rule, L.w + ", no message", c.holds(is_err(p)[0]), "a message taken for something else", *[x for x, _ in c.G])
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    if n == 0:
        rep.judge(rule, L.w, False, "no plaintext is ever accepted", L.r.value)
    refusals(rep, L, [
        ("Malformed", lambda a, b: a.op == "eq" and not b and typ in a.a),
        ("=", lambda a, b: a.op == "is" and cut_of(a.a[0], "unpack") and (a.a[1] == "Err") == b),
    ])


def own_key(ctx, rep):
    """whether one of the keys a hop may be addressed by is held here"""
    rule = "own keys recognised"
    L = Layer(ctx, rep, rule, "has_key_agreement_secret", ("next", "dids", "secrets"), optional=False)
    if L.k is None:
        return
    nxt, dids, secrets = L.args
    s = A("split_once", nxt, S("#"))
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c0 in cs:
                for c in branch(c0, s):
                    y = pick(v, c)
                    f = None
                    for x in [y] + [a for a, _ in c.G]:
                        for t in walk(x):
                            if t.op == "app" and last(t.a[0]) == "find_secrets":
                                f = t
                    j = lambda what, good, detail, *t: rep.judge(rule, L.w + ", " + what, good, detail, *t)
                    if f is None or f.a[2][0] is not secrets:
                        j("resolver", False, "answered %s without asking" % show(y, 60), y)
                        continue
                    keys = pick(f.a[2][1], c)
                    if c.variant(s) == "Some":
                        j("one key", keys is lst(mk("one", nxt)), "asks for " + show(keys, 120), keys)
                    else:
                        D = [t for t in walk(keys) if t.op == "f" and t.a[2] == "key_agreement"]
                        src = keys.a[0].a[0] if keys.op == "list" and len(keys.a) == 1 and keys.a[0].op in ("comp", "all") else keys
                        plain = keys.op != "list" or keys.a[0].op == "all" or (keys.a[0].op == "comp" and not keys.a[0].a[2] and keys.a[0].a[3] is keys.a[0].a[1])
                        good = bool(D) and src is D[0] and plain
                        j("keys of the document", good, "asks for " + show(keys, 120), keys)
                        if good:
                            d = D[0].a[0]
                            res = made_by(d)
                            j("document", res.op == "app" and last(res.a[0]) == "resolve" and res.a[2][0] is dids and c.n(res.a[2][1]) in (c.n(nxt), nxt), "of " + show(d, 120), d)
                    none = empty(okof(f))
                    j("answer", c.ok(f) and (y is notb(none) or y is TRUE and c.holds(none, False) or y is FALSE and c.holds(none)), "answered %s" % show(y, 80), y)
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    refusals(rep, L, [
        ("DIDNotResolved", lambda a, b: not_found(a, b, dids, None)),
        ("=", lambda a, b: resolver_failed(a, b, dids)),
        ("=", lambda a, b: failed_app(a, b, "find_secrets") and a.a[0].a[2][0] is secrets),
    ])
