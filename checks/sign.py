"""Packing: signed messages, rotation claims and plaintexts."""
from pack import *

DID_TEXT = "is_did"


def did_cut(ctx, rep, rule):
    ks = ctx.find_fn(DID_TEXT)
    if not ks:
        rep.unk(rule, DID_TEXT, "the test whether a text is a DID was not found")
    return ks


def is_did(c, x, sign=True):
    """x is known to be (not to be) a DID"""
    for a, b in c.G:
        if b == sign and cut_of(a, DID_TEXT) and c.n(a.a[2][0]) is c.n(x):
            return a
    L = A("split", c.n(x), S(":"))
    lo, hi = part_count(c, L)
    first = eq(index(L, C("int", 0)), S("did"))
    if (lo >= 3 and c.holds(first)) if sign else (hi < 3 or c.holds(first, False)):
        return first
    return None


def text_of(x):
    return x.a[2][0] if x is not None and x.op == "app" and x.a[0] == "to_" + URL else None


class Signing(Keys):
    """one signature made for a party"""

    def __init__(self, ctx, rep, rule, w, dids, who, secrets, did=None):
        Keys.__init__(self, ctx, rep, rule, w, dids, who)
        self.secrets, self.did = secrets, did

    def listed(self, c, L):
        """L are the keys listed under authentication that may be used"""
        L = pick(L, c)
        if L.op == "list" and len(L.a) == 1 and L.a[0].op == "one":
            k = c.n(L.a[0].a[0])
            good = False
            for a, b in c.G:
                for t in walk(a):
                    if t.op in ("elem", "in", "idx", "member", "app") and t.a and getattr(t.a[0], "op", None) == "f" and t.a[0].a[2] == "authentication" and among(c, t.a[0], k):
                        if self.source(c, t.a[0], "key asked for", "authentication") is not None:
                            good = True
                            break
                if good:
                    break
            self.j("key asked for", good and k is c.n(self.who), "not one listed under authentication: " + show(k, 120), k, *[a for a, _ in c.G])
            return
        if L.op == "f":
            self.source(c, L, "keys", "authentication")
            self.j("keys", c.holds(NOHASH(self.who)), "others than the key asked for too", L)
            return
        self.ids(c, L, "keys", None, "authentication")

    def source(self, c, KA, what, relation="authentication"):
        if self.did is None:
            return Keys.source(self, c, KA, what, relation)
        old = self.who
        self.who = self.did
        try:
            return Keys.source(self, c, KA, what, relation)
        finally:
            self.who = old

    def check(self, c, sig_text, prot, payload, kid, alg):
        """sig_text is the signature over prot and payload with the key kid names; the name of its kind"""
        j = self.j
        b = text_of(sig_text)
        x = made_by(b) if b is not None else NOTHING
        if not (x.op == "app" and last(x.a[0]) == "create_signature" and b in (okof(x), bare(okof(x)))):
            j("signature", False, "is " + show(sig_text, 160), sig_text)
            return None
        j("signature", c.ok(x), "handed out though signing may have failed", x)
        key, data, st = x.a[2]
        data = bare(data)
        j("signed text", data is cat((prot, S("."), payload)), "is " + show(data, 160), data)
        s, how, kk = key_source(key)
        g = made_by(s) if s is not None else NOTHING
        good = g.op == "app" and last(g.a[0]) == "get_secret" and g.a[2][0] is self.secrets and s is someof(okof(g))
        j("key", good and c.ok(g) and c.some(okof(g)), "is " + show(key, 120), key)
        name = alg.a[1] if alg.op == "adt" else None
        if good:
            j("key, the one told", c.n(g.a[2][1]) is c.n(kid), "is that of " + show(g.a[2][1], 100), g, kid)
            j("key, read", c.ok(kk), "used though it may not have been read", kk)
        if name not in SIGS:
            j("algorithm", False, "told as " + show(alg, 80), alg)
        else:
            j("algorithm", any(SIGS[name][0] in t for t in x.a[1]), "%s told, signed as %s" % (name, ", ".join(x.a[1])), alg)
            st = deep(c.n(st), c.G)
            j("signature type", st.op == "adt" and (st.a[1] == "None" or st.a[3][0].op == "adt" and st.a[3][0].a[1] == SIGS[name][1]), "%s told, made as %s" % (name, show(st, 80)), st)
            kind = SIGS[name][0].replace("KeyPair", "")
            made = key in (okof(kk), field(okof(kk), "0", kind))
            j("kind of key", made, "%s told, signed with %s" % (name, show(key, 100)), key)
        # the key id: the first that the secrets resolver has
        k = c.n(kid)
        L = k.a[0] if k.op == "idx" and k.a[1] is C("int", 0) or k.op == "elem" and isinstance(k.a[1], tuple) and k.a[1][0] == "first" and not k.a[1][2] else None
        f = made_by(L) if L is not None else NOTHING
        if not (f.op == "app" and last(f.a[0]) == "find_secrets" and L is okof(f)):
            j("key held", False, "not the first that the secrets resolver has: " + show(k, 120), k)
            return name
        j("key held", c.ok(f) and f.a[2][0] is self.secrets, "another resolver is asked", f)
        self.listed(c, bare(f.a[2][1]))
        return name


def relation_refusals(who, dids, secrets, undescribed=None):
    return [
        ("DIDNotResolved", lambda a, b: not_found(a, b, dids, who)),
        ("=", lambda a, b: resolver_failed(a, b, dids)),
        ("SecretNotFound", lambda c: none_held(c, secrets)),
        ("SecretNotFound", lambda c: no_secret(c, secrets)),
        ("=", lambda c: fails(c, "find_secrets", "get_secret")),
        ("=", lambda c: unreadable(c)),
        ("Unsupported", lambda c: no_signing(c)),
        ("InvalidState", lambda c: fails(c, "create_signature", "to_string", "to_vec")),
    ]


def no_signing(c):
    """the secret is of a kind that does not sign"""
    n = {}
    for a, b in c.G:
        if a.op == "is" and a.a[0].op == "f" and a.a[0].a[0].op == "app" and a.a[0].a[0].a[0].startswith("cut:as_key_pair"):
            if b and a.a[1] == "X25519":
                return a
            if not b:
                n.setdefault(a.a[0], set()).add(a.a[1])
    for x in n:
        if {"Ed25519", "P256", "K256"} <= n[x]:
            return x
    return None


def not_listed(c, who, dids):
    """`who` is a key id, and not listed under authentication"""
    return no_candidate(c, who, dids, "authentication")


def pack_signed(ctx, rep):
    rule = "signed by the party"
    dc = did_cut(ctx, rep, rule)
    pp = ctx.find_fn("pack_plaintext", "Message")
    if not pp:
        rep.unk(rule, "pack_plaintext", "not found")
        return
    L = Layer(ctx, rep, rule, "pack_signed", ("self", "by", "dids", "secrets"), "Message", optional=False, cuts=tuple(dc) + tuple(pp))
    if L.k is None:
        return
    me, by, dids, secrets = L.args
    J, S_, H, PH = (shape_of(ctx, ("payload", "signatures"), "JWS"), shape_of(ctx, ("header", "protected", "signature"), "Signature"),
                    shape_of(ctx, ("kid",), "Header"), shape_of(ctx, ("typ", "alg"), "ProtectedHeader", without=("apv",)))
    seen = set()
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c0 in cs:
                for c in branch(c0, A("split_once", by, S("#"))):
                    w = L.w
                    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                    jws, call = json_text(pick(field(v, "0"), c))
                    if jws is None or jws.op != "adt" or tname(jws.a[0]) != J.name:
                        j("envelope", False, "is " + show(field(v, "0"), 160), field(v, "0"))
                        continue
                    j("envelope", c.ok(call), "handed out though it may not have been written", call)
                    sigs, payload = c.n(J(jws, "signatures")), c.n(J(jws, "payload"))
                    one = sigs.a[0].a[0] if sigs.op == "list" and len(sigs.a) == 1 and sigs.a[0].op == "one" else None
                    if one is None or one.op != "adt":
                        j("one signature", False, "signatures are " + show(sigs, 120), sigs)
                        continue
                    kid = H(S_(one, "header"), "kid")
                    prot, sig = c.n(S_(one, "protected")), c.n(S_(one, "signature"))
                    head, hc = json_text(text_of(prot) or NOTHING)
                    if head is None or head.op != "adt" or tname(head.a[0]) != PH.name:
                        j("protected header", False, "is " + show(prot, 160), prot)
                        continue
                    j("protected header", c.ok(hc), "handed out though it may not have been written", hc)
                    typ, alg = deep(c.n(PH(head, "typ")), c.G), deep(c.n(PH(head, "alg")), c.G)
                    j("media type", typ is adt_like_str("application/didcomm-signed+json", some(typ)), "is " + show(typ, 80), typ)
                    name = Signing(ctx, rep, rule, w, dids, by, secrets).check(c, sig, prot, payload, kid, alg)
                    seen.add(name)
                    body = text_of(payload)
                    pt = made_by(body) if body is not None else NOTHING
                    j("content", bool(cut_of(pt, "pack_plaintext")) and body is okof(pt) and pt.a[2][0] is me and pt.a[2][1] is dids and c.ok(pt), "signs " + show(payload, 120), payload)
                    j("signer told", c.n(field(field(v, "1"), "sign_by_kid")) is c.n(kid), "told as " + show(field(v, "1"), 100), field(v, "1"))
                    j("signer is a DID", not dc or is_did(c, by) is not None, "signs for what is no DID", *[a for a, _ in c.G])
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for n in SIGS:
        rep.judge("every algorithm offered", L.w + ", " + n, n in seen, "never signed with", L.r.value)
    refusals(rep, L, [
        ("IllegalArgument", lambda c: is_did(c, by, False)),
        ("DIDUrlNotFound", lambda c: not_listed(c, by, dids)),
        ("=", lambda c: fails(c, "cut:pack_plaintext", "pack_plaintext")),
    ] + relation_refusals(by, dids, secrets))


def rotation_checked(c, claim, kid, iss, sub):
    """what must be known of a rotation claim and of the key id it is signed with (or None)"""
    out = []
    for what, x in (("iss", iss), ("sub", sub)):
        out.append((what + " is a DID", is_did(c, x) is not None))
        out.append((what + " is no key id", c.holds(NOHASH(x))))
    out.append(("iss and sub differ", c.holds(eq(c.n(iss), c.n(sub)), False)))
    if kid is not None:
        s = A("split_once", kid, S("#"))
        out.append(("signed with a key id", c.some(s)))
        out.append(("signed with a key of iss", c.holds(eq(c.n(field(someof(s), "0")), c.n(iss)))))
    return out


def rotation_refusals(claim_of, kid_of_):
    """claim_of(c) -> (iss, sub), kid_of_(c) -> the key id or None"""
    def bad_did(c):
        for x in claim_of(c):
            if is_did(c, x, False) is not None:
                return is_did(c, x, False)
            s = A("split_once", x, S("#"))
            if c.some(s):
                return s
        iss, sub = claim_of(c)
        return iss if c.n(iss) is c.n(sub) else None

    def bad_kid(c):
        k = kid_of_(c)
        if k is None:
            return None
        s = A("split_once", k, S("#"))
        if c.holds(NOHASH(k)):
            return s
        return s if c.holds(eq(c.n(field(someof(s), "0")), c.n(claim_of(c)[0])), False) else None
    return [("Malformed", bad_did), ("IllegalArgument", bad_kid)]


def claim_packed(ctx, rep):
    """a rotation claim is signed with a key of the prior DID"""
    rule = "claim signed by its issuer"
    dc = did_cut(ctx, rep, rule)
    L = Layer(ctx, rep, rule, "pack", ("self", "issuer", "dids", "secrets"), "FromPrior", optional=False, cuts=dc)
    if L.k is None:
        return
    me, issuer, dids, secrets = L.args
    H, P = shape_of(ctx, ("typ", "alg", "kid"), "CompactHeader", without=("apv",)), shape_of(ctx, ("iss", "sub", "exp"), "FromPrior")
    iss, sub = P(me, "iss"), P(me, "sub")
    given = someof(issuer)
    seen = set()
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in [y for c0 in cs for c1 in branch(c0, issuer) for y in (branch(c1, A("split_once", given, S("#"))) if c1.some(issuer) else [c1])]:
                w = L.w
                j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                q = pick(field(v, "0"), c)
                parts = cat_parts(q)
                if parts is None or len(parts) != 5 or parts[1] is not S(".") or parts[3] is not S("."):
                    j("token", False, "is " + show(q, 200), q)
                    continue
                head_text, payload, sig = parts[0], parts[2], parts[4]
                head, hc = json_text(text_of(c.n(head_text)) or NOTHING)
                if head is None or head.op != "adt" or tname(head.a[0]) != H.name:
                    j("header", False, "is " + show(head_text, 160), head_text)
                    continue
                j("header", c.ok(hc), "handed out though it may not have been written", hc)
                typ, alg, kid = [deep(c.n(H(head, x)), c.G) for x in ("typ", "alg", "kid")]
                j("media type", typ is S("JWT"), "is " + show(typ, 80), typ)
                asked = c.some(issuer)
                name = Signing(ctx, rep, rule, w, dids, given if asked else iss, secrets, did=iss).check(c, c.n(sig), c.n(head_text), c.n(payload), kid, alg)
                seen.add(name)
                body, bc = json_text(text_of(c.n(payload)) or NOTHING)
                j("claim", body is not None and c.ok(bc) and same_struct(c, c.n(body), me), "signs " + show(payload, 120), payload)
                j("key told", c.n(field(v, "1")) is c.n(kid), "told as " + show(field(v, "1"), 100), field(v, "1"))
                for what, good in rotation_checked(c, me, given if asked else None, iss, sub):
                    j(what, good, "signed though this may not hold", *[a for a, _ in c.G])
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for n in SIGS:
        rep.judge("every algorithm offered", L.w + ", " + n, n in seen, "never signed with", L.r.value)
    refusals(rep, L, rotation_refusals(lambda c: (iss, sub), lambda c: given if c.some(issuer) else None) + [
        ("DIDUrlNotFound", lambda c: not_listed(c, given, dids) if c.some(issuer) else None),
    ] + relation_refusals(iss, dids, secrets))


def cat_parts(x):
    return x.a if x.op == "cat" else x.a[0] if x.op == "app" and x.a[0] == "cat" else None


def plaintext_packed(ctx, rep):
    """a plaintext is the message itself; a rotation in it is verified and fits"""
    rule = "plaintext written"
    dc = did_cut(ctx, rep, rule)
    fp = ctx.find_fn("unpack", "FromPrior")
    if not fp:
        rep.unk(rule, "FromPrior::unpack", "not found")
        return
    L = Layer(ctx, rep, rule, "pack_plaintext", ("self", "dids"), "Message", optional=False, cuts=tuple(dc) + tuple(fp))
    if L.k is None:
        return
    me, dids = L.args
    S_ = shape_of(ctx, ("id", "type", "body", "from_prior"), "Message")
    P = shape_of(ctx, ("iss", "sub", "exp"), "FromPrior")
    prior, frm = S_(me, "from_prior"), S_(me, "from")
    U = None

    def claim(c):
        for a, b in c.G:
            for x in walk(a):
                if cut_of(x, "unpack") and c.n(x.a[2][0]) is someof(prior) and x.a[2][1] is dids:
                    return x
        return None
    n = 0
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in [z for c0 in cs for c1 in branch(c0, prior) for z in branch(c1, frm)]:
                n += 1
                w = L.w + (", with rotation" if c.some(prior) else ", without rotation")
                j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                m, call = json_text(pick(v, c))
                j("text", m is not None and c.ok(call) and same_struct(c, c.n(m), me), "is " + show(v, 160), v)
                if not c.some(prior):
                    continue
                x = claim(c)
                if x is None or not c.ok(x):
                    j("rotation verified", False, "packed though the rotation claim was not verified", *[a for a, _ in c.G])
                    continue
                iss, sub, kid = P(field(okof(x), "0"), "iss"), P(field(okof(x), "0"), "sub"), field(okof(x), "1")
                for what, good in rotation_checked(c, None, kid, iss, sub):
                    j(what, good, "packed though this may not hold", *[a for a, _ in c.G])
                if c.some(frm):
                    j("rotates to the sender", c.holds(eq(c.n(sub), c.n(someof(frm)))), "packed with a rotation to another DID than the sender's", *[a for a, _ in c.G])
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    if not n:
        rep.judge(rule, L.w, False, "nothing is ever packed", L.r.value)

    def of(c):
        x = claim(c)
        return (P(field(okof(x), "0"), "iss"), P(field(okof(x), "0"), "sub")) if x is not None else (NOTHING, sym("nothing2"))

    def other_sender(c):
        sub = of(c)[1]
        return frm if c.some(frm) and c.holds(eq(c.n(sub), c.n(someof(frm))), False) else None
    refusals(rep, L, [
        ("=", lambda a, b: a.op == "is" and cut_of(a.a[0], "unpack") and (a.a[1] == "Err") == b),
        ("Malformed", other_sender),
        ("InvalidState", lambda c: fails(c, "to_string", "to_vec")),
    ] + rotation_refusals(of, lambda c: field(okof(claim(c)), "1") if claim(c) is not None else None))


def did_of(c, x):
    """the DID of a DID or DID URL (c knows which it is)"""
    return c.n(x) if c.holds(NOHASH(x)) else c.n(field(someof(A("split_once", x, S("#"))), "0"))


def branches(c, *conds):
    """readings that know each of the conditions (functions of the reading, giving an Option or None)"""
    out = [c]
    for f in conds:
        new = []
        for c1 in out:
            x = f(c1)
            new += branch(c1, x) if x is not None else [c1]
        out = new
    return out


def hash_of(x, when=None):
    """for branches: whether x is a DID URL, where the option it is taken from is there"""
    return lambda c: A("split_once", x, S("#")) if when is None or c.some(when) else None


def cuts_of(ctx, rep, rule, *names):
    out = []
    for n in names:
        ks = ctx.find_fn(*n.split("@"))
        if not ks:
            rep.unk(rule, n, "not found")
            return None
        out += ks
    return tuple(out)


def encrypted_packed(ctx, rep):
    """pack_encrypted puts the layers on in order, and tells what was used"""
    rule = "layers put on in order"
    cuts = cuts_of(ctx, rep, rule, "pack_plaintext@Message", "pack_signed@Message", "anoncrypt", "authcrypt", "wrap_in_forward_if_needed")
    if cuts is None:
        return
    L = Layer(ctx, rep, rule, "pack_encrypted", ("self", "to", "from", "by", "dids", "secrets", "opts"), "Message", optional=False, cuts=cuts + tuple(did_cut(ctx, rep, rule)))
    if L.k is None:
        return
    me, to, frm, by, dids, secrets, opts = L.args
    M = shape_of(ctx, ("id", "type", "body", "from_prior"), "Message")
    mto, mfrom = M(me, "to"), M(me, "from")
    opt = lambda n: field(opts, n)
    conds = (lambda c: by, lambda c: frm, lambda c: mto, lambda c: mfrom, hash_of(to), hash_of(someof(frm), frm))

    def wrapping(c):
        ws = [x for a, _ in c.G for x in walk(a) if cut_of(x, "wrap_in_forward_if_needed")]
        return okof(ws[0]) if ws else None
    n = 0
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c0 in cs:
                for c in branches(c0, *(conds + (wrapping,))):
                    n += 1
                    w = L.w + (", authenticated" if c.some(frm) else ", anonymous") + (", signed" if c.some(by) else "")
                    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)

                    def call(x, name, what, *args):
                        """x was made by that call, of these arguments"""
                        m = made_by(x)
                        if not cut_of(m, name):
                            j(what, False, "is " + show(x, 120), x)
                            return None
                        if len(m.a[2]) != len(args):
                            rep.unk(rule, w, name + " takes other arguments")
                            return None
                        j(what + ", done", c.ok(m), "handed out though it may have failed", m)
                        for k, (p, q) in enumerate(zip(m.a[2], args)):
                            if q is not None:
                                j("%s, argument %d" % (what, k), pick(p, c) is c.n(q), "is " + show(p, 100), p)
                        return m
                    meta = field(v, "1")
                    text = pick(field(v, "0"), c)
                    outer = made_by(text)
                    wrapped = cut_of(outer, "wrap_in_forward_if_needed")
                    W = outer if wrapped else made_by(wrapping(c)) if wrapping(c) is not None else None
                    if W is None:
                        j("forwarding", False, "is not looked into", text)
                        continue
                    if len(W.a[2]) != 4:
                        rep.unk(rule, w, "wrap_in_forward_if_needed takes other arguments")
                        continue
                    got = okof(W)
                    sealed_ = pick(W.a[2][0], c)
                    call(okof(W), "wrap_in_forward_if_needed", "forwarding", sealed_, to, dids, opts)
                    if wrapped:
                        j("forwarded", text is c.n(field(someof(got), "0")) and c.some(got), "is " + show(text, 120), text)
                    else:
                        j("not forwarded", text is sealed_ and c.holds(isv(c.n(got), "None", OPT)), "is " + show(text, 120) + " though it was wrapped", text)
                    if c.some(frm):
                        X = call(sealed_, "authcrypt", "encryption", to, someof(frm), dids, secrets, None, opt("enc_alg_auth"), opt("enc_alg_anon"), opt("protect_sender"))
                        src, to_kids, from_kid = 4, "2", lambda: some(field(okof(X), "1"))
                    else:
                        X = call(sealed_, "anoncrypt", "encryption", to, dids, None, opt("enc_alg_anon"))
                        src, to_kids, from_kid = 2, "1", lambda: NONE
                    if X is None:
                        continue
                    j("encrypted text", sealed_ is c.n(field(okof(X), "0")), "is " + show(sealed_, 100), sealed_)
                    content = pick(bare(X.a[2][src]), c)
                    if c.some(by):
                        Y = call(content, "pack_signed", "content", me, someof(by), dids, secrets)
                        ok_ = Y is not None and content is c.n(field(okof(Y), "0"))
                        signer = some(field(field(okof(Y), "1"), "sign_by_kid")) if Y is not None else None
                    else:
                        Y = call(content, "pack_plaintext", "content", me, dids)
                        ok_ = Y is not None and content is c.n(okof(Y))
                        signer = NONE
                    if Y is None:
                        continue
                    j("content", ok_, "is " + show(content, 100), content)
                    for name, want in (("to_kids", field(okof(X), to_kids)), ("from_kid", from_kid()), ("sign_by_kid", signer), ("messaging_service", some(field(someof(got), "1")) if wrapped else NONE)):
                        x = deep(pick(field(meta, name), c), c.G)
                        j(name + " told", same_struct(c, x, c.n(want)), "told as " + show(x, 100), x)
                    known = [a for a, _ in c.G]
                    j("to is a DID", is_did(c, to) is not None, "packed for what is no DID", *known)
                    if c.some(frm):
                        j("from is a DID", is_did(c, someof(frm)) is not None, "packed from what is no DID", *known)
                    if c.some(by):
                        j("sign_by is a DID", is_did(c, someof(by)) is not None, "signed for what is no DID", *known)
                    if c.some(mto):
                        j("addressee", among(c, c.n(someof(mto)), did_of(c, to)), "packed for one the message is not addressed to", *known)
                    if c.some(mfrom) and c.some(frm):
                        j("sender", c.holds(eq(c.n(someof(mfrom)), did_of(c, someof(frm)))), "packed from another than the message's sender", *known)
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    if not n:
        rep.judge(rule, L.w, False, "nothing is ever packed", L.r.value)

    def bad(c):
        for x in (to, someof(frm), someof(by)):
            t = is_did(c, x, False)
            if t is not None and (x is to or c.some(frm if x is someof(frm) else by)):
                return t
        return None

    def others(c):
        cs = branches(c, *conds)
        for c2 in cs:
            good = False
            if c2.some(mto):
                l = c2.n(someof(mto))
                z, F = with_element(c2.G, l, "c")
                good = F is None or impossible(F, (eq(z, did_of(c2, to)), True)) or c2.holds(A("contains", l, did_of(c2, to)), False)
            if c2.some(mfrom) and c2.some(frm):
                good = good or c2.holds(eq(c2.n(someof(mfrom)), did_of(c2, someof(frm))), False)
            if not good:
                return None
        return mto
    refusals(rep, L, [
        ("IllegalArgument", bad), ("IllegalArgument", others),
        ("=", lambda a, b: a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:") and (a.a[1] == "Err") == b),
    ])
