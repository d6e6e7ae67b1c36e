"""Packing: what goes into each layer, and which keys it is made with."""
from compose import *

KDF = {None: "ECDH-ES+A256KW", True: "ECDH-1PU+A256KW"}
NOHASH = lambda t: isv(A("split_once", t, S("#")), "None", OPT)


def is_encrypting(x):
    return x is not None and last(x.a[0]) == "encrypt_in_place"


def json_text(x):
    """the value a JSON text was made from, and the call"""
    if x.op == "f" and x.a[1] == "Ok" and x.a[0].op == "app" and last(x.a[0].a[0]) == "to_string" and "serde_json" in x.a[0].a[0]:
        return x.a[0].a[2][0], x.a[0]
    return None, None


def one_comp(x):
    if x.op == "list" and len(x.a) == 1:
        q = x.a[0]
        if q.op == "comp":
            return q.a[0], q.a[1], frozenset(q.a[2] or ()), q.a[3]
        if q.op == "all":
            e = mk("elem", q.a[0], "c")
            return q.a[0], e, EMPTY, e
    if x.op == "f":
        e = mk("elem", x, "c")
        return x, e, EMPTY, e
    return None


def candidate(c, who, z):
    """facts under which key id z may be used for `who`, a DID or one key of it"""
    if c.holds(NOHASH(who)):
        return [], None
    return [(eq(z, who), True)], (eq(z, who), False)


def key_alg_of(vm, *where_):
    """the kind of key vm is, as it is asked for in the terms"""
    for t in where_:
        for x in walk(t):
            if x.op == "app" and x.a[0].startswith("cut:key_alg") and x.a[2][0].op in ("elem", "idx") and x.a[2][0].a[0] is vm.a[0]:
                return mk("app", x.a[0], x.a[1], (vm,))
    return mk("app", "cut:key_alg", (), (vm,))


def algs_of(ctx):
    return enum_of(ctx, "X25519", "P256", "Unsupported")


class Keys(object):
    """the key agreement keys of one party"""

    def __init__(self, ctx, rep, rule, w, dids, who):
        self.ctx, self.rep, self.rule, self.w, self.dids, self.who = ctx, rep, rule, w, dids, who
        self.names = algs_of(ctx)

    def j(self, what, good, detail, *t):
        self.rep.judge(self.rule, self.w + ", " + what, good, detail, *t)

    def source(self, c, KA, what, relation="key_agreement"):
        """KA is that member of the document the resolver gave for the party"""
        D = KA.a[0] if KA.op == "f" else None
        if D is None or KA.a[2] != relation:
            self.j(what, False, "taken from " + show(KA, 160), KA)
            return None
        res = made_by(D)
        if not (res.op == "app" and last(res.a[0]) == "resolve" and D is someof(okof(res))):
            self.j(what, False, "taken from a document that is " + show(D, 160), D)
            return None
        self.j(what + ", resolver", res.a[2][0] is self.dids and c.ok(res) and c.some(okof(res)), "not from a document the resolver returned", res)
        did = pick(res.a[2][1], c)
        good = did is c.n(self.who) if c.holds(NOHASH(self.who)) else did_part(did, self.who)
        self.j(what + ", document", good, "document of " + show(did, 120), did)
        return D

    def vm(self, c, vm, z, D):
        """vm is the verification method of D that has the id z"""
        if not (vm.op in ("elem", "idx") and vm.a[0] is field(D, "verification_method")):
            return False
        return c.n(field(vm, "id")) is c.n(z) or (eq(field(vm, "id"), z), True) in c.choice(vm)

    def method(self, c, x, z, D):
        for t in walk(x):
            if t.op == "elem" and t.a[0] is field(D, "verification_method") and self.vm(c, t, z, D):
                return t
        return None

    def ids(self, c, L, what, curve=None, relation="key_agreement"):
        """L is the list of the ids of exactly the keys that may be used, of the given kind; (document, element, guard, value)"""
        L = pick(L, c)
        q = one_comp(L)
        if q is None:
            self.j(what, False, "are " + show(L, 160), L)
            return None
        src, e, g, v = q
        D = self.source(c, src, what, relation)
        if D is None:
            return None
        src = c.n(src)
        z, F = with_element(c.G, src, "c")
        m = {e: z}
        g, v = subst_facts(g, m), subst(v, m)
        if F is None or g is None or not sat(ext(F, g) or EMPTY):
            self.j(what, F is None, "none are used", L)
            return None
        vm = self.method(c, mk("tuple", v, *[a for a, _ in g]), z, D)
        self.j(what + ", ids", v is z or (vm is not None and v is field(vm, "id")), "of " + show(v, 120), v)
        need, other = candidate(c, self.who, z)
        extra = []
        terms = [a for a, _ in g]
        if other is not None:
            self.j(what + ", only what was asked for", impossible(F, other, *g), "others than the key asked for", *terms)
        if curve is not None:
            vm = vm or mk("elem", field(D, "verification_method"), ("first", mk("elem", field(D, "verification_method"), "b"), frozenset([(eq(field(mk("elem", field(D, "verification_method"), "b"), "id"), z), True)])))
            k = key_alg_of(vm, *(terms + [a for a, _ in F]))
            is_ = (isv(k, curve, self.names), True)
            self.j(what + ", kind of key", impossible(F, (is_[0], False), *g), "keys of another kind than %s too" % curve, *terms)
            extra = [is_]
        for a, b in g:
            self.j(what + ", all that may be used", impossible(F, *(need + extra + list(negfacts([(a, b)])))), "left out where not " + showf([(a, b)]), a)
        return D, src, z, g, v, F

    def preferred(self, c, D, KA, curve):
        """the kind of key is that of the first one of a kind that is known"""
        z, F = with_element(c.G, KA, "c")
        for a, b in sorted(c.G, key=lambda f: f[0].n):
            if not (b and a.op == "is" and a.a[1] == curve and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:key_alg")):
                continue
            vm = a.a[0].a[2][0]
            ids = [x for t, s in c.choice(vm) | chosen_as(vm) if s and t.op == "eq" and field(vm, "id") in t.a for x in t.a if x is not field(vm, "id")]
            for e in ids:
                if c.n(e) is c.n(self.who) and not c.holds(NOHASH(self.who)):
                    self.j("choice of kind", True, "")  # the one key asked for
                    return
                if e.op == "elem" and c.n(e.a[0]) is KA and isinstance(e.a[1], tuple) and e.a[1][0] == "first":
                    g = subst_facts(e.a[1][2], {e.a[1][1]: z})
                    vz = self.method(c, mk("tuple", *[x for x, _ in g]), z, D)
                    need, other = candidate(c, self.who, z)
                    if vz is None:
                        self.j("choice of kind", False, "of a key whose kind may be unknown", e)
                        return
                    k = key_alg_of(vz, *[x for x, _ in g])
                    unk = isv(k, "Unsupported", self.names)
                    self.j("choice of kind, of a usable key", impossible(F, *(list(g) + [(unk, True)])) and (other is None or impossible(F, *(list(g) + [other]))), "taken from a key that may not be used", e)
                    for f, s in g:
                        self.j("choice of kind, first usable", impossible(F, *(need + [(unk, False)] + list(negfacts([(f, s)])))), "passes over a key where not " + showf([(f, s)]), f)
                    return
        self.j("choice of kind", False, "not that of the party's first usable key", *[a for a, _ in c.G])


def sealed(ctx, rep, rule, w, c, text, alg, dids, to, enc, sender=None):
    """text is an encrypted message for the key agreement keys of `to`; (content, curve, list of recipients, sender key's id and secret)"""
    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
    E = Jwe(ctx, sym("-"))
    jwe, call = json_text(text)
    if jwe is None or tname(jwe.a[0] if jwe.op == "adt" else "") != E.J.name:
        j("envelope", False, "is " + show(text, 160), text)
        return None
    j("envelope", c.ok(call), "handed out though it may not have been written", call)
    text_of = lambda x: x.a[2][0] if x.op == "app" and x.a[0] == "to_" + URL else None
    prot, rs, iv, ct, tag = [E.J(jwe, n) for n in ("protected", "recipients", "iv", "ciphertext", "tag")]
    head, hc = json_text(text_of(prot) or NOTHING)
    if head is None or head.op != "adt" or tname(head.a[0]) != E.PH.name:
        j("protected header", False, "is " + show(prot, 160), prot)
        return None
    h = {n: deep(c.n(E.PH(head, n)), c.G) for n in ("typ", "alg", "enc", "skid", "apu", "apv", "epk")}
    # the content
    q = one = text_of(ct)
    out = q.a[0] if q is not None and q.op == "slice" else None
    out_tag = text_of(tag)
    enc_call = call_of(out) if out is not None else None
    if not is_encrypting(enc_call):
        j("ciphertext", False, "is " + show(ct, 160), ct)
        return None
    n = okof(enc_call)
    j("encrypted", c.ok(enc_call), "handed out though encryption may have failed", enc_call)
    j("ciphertext", q.a[1] is C("int", 0) and c.n(q.a[2]) is n, "is " + show(q, 100), q)
    j("tag", out_tag is not None and out_tag.op == "slice" and out_tag.a[0] is out and c.n(out_tag.a[1]) is n and to_end(out_tag, out), "is " + show(tag, 100), tag)
    cek, buf, nonce, aad = (list(enc_call.a[2]) + [None] * 4)[:4]
    j("protected header bound", bare(aad) is prot, "additional data is " + show(aad, 100), aad)
    j("iv", text_of(iv) is not None and bare(text_of(iv)) is bare(nonce), "told as " + show(iv, 100), iv)
    nn = bare(nonce)
    j("iv, random", nn.op == "app" and last(nn.a[0]) == "random_nonce" and nn.a[1] == enc_call.a[1], "is " + show(nonce, 100), nonce)
    gen = made_by(cek)
    j("content key, random", gen.op == "app" and last(gen.a[0]) == "generate" and c.ok(gen) and gen.a[1][:1] == enc_call.a[1] and any(x.op == "fresh" for x in walk(gen)), "is " + show(cek, 120), cek)
    # the header
    j("type", h["typ"] is some(adt_like_str("application/didcomm-encrypted+json", h["typ"])) , "is " + show(h["typ"], 100), h["typ"])
    kind = "EcdhEsA256kw" if sender is None else "Ecdh1puA256kw"
    j("algorithm told", h["alg"].op == "adt" and h["alg"].a[1] == kind, "is " + show(h["alg"], 60), h["alg"])
    told_enc = h["enc"].a[1] if h["enc"].op == "adt" else None
    j("content encryption told", told_enc in ENC and any(ENC[told_enc] in t for t in enc_call.a[1]), "told as %s, encrypted with %s" % (told_enc, ", ".join(enc_call.a[1])), h["enc"])
    asked = c.variant(enc) if enc is not None else None
    offered = {v: k for k, v in (ANON if sender is None else AUTH).items()}
    if asked is None and len(offered) == 1 and len(enum_of(ctx, *offered)) == 1:
        asked = list(offered)[0]
    want = offered.get(asked)
    j("content encryption asked for", want is not None and told_enc == want, "asked for %s, encrypted with %s" % (asked, told_enc), enc)
    # the keys
    rs = pick(rs, c)
    R = one_comp(rs)
    if R is None:
        j("recipients", False, "are " + show(rs, 160), rs)
        return None
    src, e, g, v = R
    z, F = with_element(c.G, src, "c")
    m = {e: z}
    g, v = subst_facts(g, m), c.n(subst(v, m))
    kid, key = E.H(E.R(v, "header"), "kid"), text_of(E.R(v, "encrypted_key"))
    wrap = call_of(bare(key)) if key is not None else None
    if F is None or g is None or not is_encrypting(wrap) or not any("A256Kw" in t for t in wrap.a[1]):
        j("wrapped key", False, "is " + show(E.R(v, "encrypted_key"), 160), v)
        return None
    kw, kb, kiv, kad = (list(wrap.a[2]) + [None] * 4)[:4]
    j("content key wrapped", contains(kb, cek) and all(x.op != "app" or last(x.a[0]) in ("write_secret_bytes", "to_secret_bytes") or "write_secret" in x.a[0] or contains(cek, x) for x in walk(kb)) and empty(kiv) is TRUE and empty(kad) is TRUE,
      "wraps " + show(kb, 120), kb)
    j("wrapped", impossible(F, *(list(g) + [is_err(wrap)])), "handed out though wrapping may have failed", wrap)
    d = made_by(kw)
    nw = d.a[2][0] if d.op == "app" and last(d.a[0]) == "from_key_derivation" else NOTHING
    if not (nw.op == "app" and last(nw.a[0]) == "new" and ("EcdhEs" if sender is None else "Ecdh1PU") in nw.a[0]):
        j("key derivation", False, "%s is required, not %s" % ("ECDH-ES" if sender is None else "ECDH-1PU", show(nw, 100)), nw)
        return None
    j("key derived", impossible(F, *(list(g) + [is_err(d)])), "handed out though derivation may have failed", d)
    args = list(nw.a[2])
    skey = args.pop(1) if sender is not None else None
    curve = ([x for x in CURVES if any(CURVES[x] in t for t in nw.a[1])] + [None])[0]
    epk, pub, al, apu, apv = args[:5]
    gk = made_by(epk)
    j("ephemeral key, random", gk.op == "app" and last(gk.a[0]) == "generate" and c.ok(gk) and any(CURVES.get(curve, "?") in t for t in gk.a[1]) and any(x.op == "fresh" for x in walk(gk)), "is " + show(epk, 120), epk)
    j("ephemeral key told", public_of(h["epk"]) is epk, "told as " + show(h["epk"], 120), h["epk"])
    vm, how, kk = key_source(pub)
    j("recipient key", vm is not None and pub in (okof(kk), field(okof(kk), "0", curve)), "is " + show(pub, 100), pub)
    j("recipient key read", impossible(F, *(list(g) + [is_err(kk)])), "handed out though a key may not have been read", kk)
    K = Keys(ctx, rep, rule, w, dids, to)
    D = src.a[0] if src.op == "f" else None
    if vm is not None and D is not None:
        j("recipient key", K.vm(c, vm, z, D), "is not that of the key id it is listed under", vm)
        j("recipient key id", kid is z or kid is field(vm, "id"), "is " + show(kid, 100), kid)
    j("algorithm id", al is S(KDF[None if sender is None else True]), "is " + show(al, 60), al)
    ap = bare(apv)
    j("apv told", text_of(h["apv"]) is not None and bare(text_of(h["apv"])) is ap, "told as " + show(h["apv"], 100), h["apv"])
    hashed_ = ap.a[2][0] if ap.op == "app" and last(ap.a[0]) == "digest" and ap.a[1] == ("Sha256",) else NOTHING
    hashed_ = pick(bare(hashed_), c)
    lists = None
    if hashed_.op == "app" and last(hashed_.a[0]) == "join" and hashed_.a[2][1] in (S("."), C("char", ".")):
        s = pick(hashed_.a[2][0], c)
        if s.op == "app" and last(s.a[0]) in ("sort", "sorted"):
            lists = pick(s.a[2][0], c)
    if lists is None:
        j("apv", False, "is made from " + show(hashed_, 160), ap)
    else:
        K.ids(c, lists, "apv", curve)
    if sender is None:
        j("no sender told", h["skid"].op == "adt" and h["skid"].a[1] == "None" and h["apu"].op == "adt" and h["apu"].a[1] == "None", "told as " + show(h["skid"], 80), h["skid"])
        j("apu", empty(apu) is TRUE, "is " + show(apu, 80), apu)
    else:
        j("sender told", h["skid"] is some(bare(apu)) and h["apu"] is some(A("to_" + URL, bare(apu))), "told as %s, %s" % (show(h["skid"], 80), show(h["apu"], 80)), h["skid"], h["apu"])
        j("tag bound", any(bare(x) is out_tag for x in args[5:]), "the content's tag does not go into the wrapping key", nw)
    j("direction", args[-1] is FALSE, "derives as the receiver does", args[-1])
    got = K.ids(c, lst(mk("comp", src, z, g, kid)), "recipients", curve)
    return {"content": bare(buf), "curve": curve, "recipients": got, "K": K, "src": src, "D": D, "apu": bare(apu), "skey": skey, "enc": told_enc}


NOTHING = sym("nothing")


def adt_like_str(s, x):
    """a text, owned or not, as it is in x"""
    if x.op == "adt" and x.a[1] == "Some":
        y = x.a[3][0]
        if y is S(s) or y.op == "adt" and y.a[3] == (S(s),):
            return y
    return S(s)


def to_end(x, of):
    e = x.a[2]
    return e is C("int", -1) or e is length(of) or e.op == "len" and e.a[0] is of


def public_of(x):
    """the key whose public part x is"""
    while x.op == "f":
        x = x.a[0]
    if x.op == "app" and last(x.a[0]) in ("json", "to_jwk_public", "to_jwk_public_value") and (len(x.a[2]) == 1 or x.a[2][1].op == "adt" and x.a[2][1].a[1] == "None"):
        return x.a[2][0] if last(x.a[0]).startswith("to_jwk") else public_of(x.a[2][0])
    return None


def anoncrypt(ctx, rep):
    rule = "sealed for the recipient"
    L = Layer(ctx, rep, rule, "anoncrypt", ("to", "dids", "msg", "enc"), optional=False)
    if L.k is None:
        return
    to, dids, msg, enc = L.args
    seen = set()
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c0 in cs:
                for c in branch(c0, A("split_once", to, S("#"))):
                    text = pick(field(v, "0"), c)
                    D = sealed(ctx, rep, rule, L.w, c, text, None, dids, to, enc)
                    if D is None:
                        continue
                    w = "%s, %s, %s" % (L.w, D["curve"], D["enc"])
                    seen.add((D["curve"], D["enc"]))
                    rep.judge(rule, w + ", content", D["content"] is msg, "is " + show(D["content"], 100), D["content"])
                    D["K"].ids(c, pick(field(v, "1"), c), "recipients reported", D["curve"])
                    if D["D"] is not None:
                        D["K"].preferred(c, D["D"], D["src"], D["curve"])
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for cv in CURVES:
        for n in ANON:
            rep.judge("every algorithm offered", L.w + ", %s, %s" % (cv, n), (cv, n) in seen, "never sealed", L.r.value)
    refusals(rep, L, refused_keys(ctx, L, [("to", to, dids)], "Unsupported") + CRYPTO + [
        ("InvalidState", lambda c: no_usable(ctx, c, to, dids)),
        ("InvalidState", lambda c: odd_kind(c)),
    ])
    missing_told(rep, L, ("InvalidState", "NoCompatibleCrypto"), [to], dids)


CRYPTO = [("InvalidState", lambda c: fails(c, "generate", "encrypt_in_place", "from_key_derivation", "write_secret_bytes", "secret_bytes_length", "to_secret_bytes", "to_jwk_public", "to_string", "to_vec", "json", "from_str", "from_value"))]


def all_facts(c):
    """the facts, and what is known of the elements that are known to exist"""
    for a, b in c.G:
        yield a, b
        if in_fact(a) and (a.a[1] == "Some") == b:
            for p, q in c.choice(a.a[0].a[0]):
                yield p, q


def fails(c, *names):
    for a, b in all_facts(c):
        for n in names:
            if failed_app(a, b, n):
                return a
    return None


def lists_of(c, member):
    """members of that name of documents that are looked through"""
    out = {}
    for a, b in c.G:
        for x in walk(a):
            if x.op in ("elem", "idx", "empty") and x.a[0].op == "f" and x.a[0].a[2] == member:
                out[x.a[0]] = x
    return list(out)


def of_party(c, L, who, dids):
    res = made_by(L)
    if not (res.op == "app" and last(res.a[0]) == "resolve" and res.a[2][0] is dids):
        return False
    for c2 in branch(c, A("split_once", who, S("#"))):
        did = pick(res.a[2][1], c2)
        if not (did is c2.n(who) if c2.holds(NOHASH(who)) else did_part(did, who) or did is c2.n(field(someof(A("split_once", who, S("#"))), "0"))):
            return False
    return True


def none_may(c, who, KA, *more):
    """no key id of KA may be used for `who` (under the given further conditions, which are functions of the element)"""
    for c2 in branch(c, A("split_once", who, S("#"))):
        z, F = with_element(c2.G, c2.n(KA), "c")
        need, _ = candidate(c2, who, z)
        if not impossible(F, *(need + [f(z, F) for f in more])):
            return False
    return True


def no_candidate(c, who, dids, relation):
    for KA in lists_of(c, relation):
        if of_party(c, KA, who, dids) and none_may(c, who, KA):
            return KA
    return None


def missing_told(rep, L, weak, parties=(), dids=None, secrets=None, kinds="errors told apart"):
    """a refusal of one of the weak kinds, which are about keys that are there, is one where there are such keys"""
    bad = {}
    for tag, v, cs, F in L.cases():
        if tag != "failed":
            continue
        for h, kd in cases(field(v, "kind")):
            for c in split(ext(F, h) if h else F):
                kd2 = deep(c.n(kd), c.G)
                if not (kd2.op == "adt" and kd2.a[1] in weak) or any(fails(c, n) for n in MADE):
                    continue
                where = "refused as %s where %s" % (kd2.a[1], showf(c.G)[:500])
                for who in parties:
                    for KA in every(c, lambda x: x.op == "f" and x.a[2] == "key_agreement" and of_party(c, x, who, dids)):
                        if not impossible(c.G, (NOHASH(who), True), (empty(KA), True)):
                            bad.setdefault("no key of %s" % show(who, 30), (where, c))
                for x in every(c, lambda x: found_list(x) and x.a[0].a[2][0] is secrets):
                    if not impossible(c.G, (empty(x), True)):
                        bad.setdefault("no secret held", (where, c))
    for who in parties:
        n = "no key of %s" % show(who, 30)
        w, c = bad.get(n, ("", None))
        rep.judge(kinds, "%s, %s" % (L.w, n), not w, w, *([a for a, _ in c.G] if c else []))
    if secrets is not None:
        w, c = bad.get("no secret held", ("", None))
        rep.judge(kinds, L.w + ", no secret held", not w, w, *([a for a, _ in c.G] if c else []))


MADE = ("generate", "encrypt_in_place", "from_key_derivation", "write_secret_bytes", "secret_bytes_length", "to_secret_bytes", "to_jwk_public", "to_string")


def every(c, p):
    out = {}
    for a, _ in c.G:
        for x in walk(a):
            if p(x):
                out[x] = True
    return list(out)


def method_facts(c, KA, z, F):
    """the verification method looked up for the id z"""
    VM = field(KA.a[0], "verification_method")
    for a, _ in sorted(F or (), key=lambda f: f[0].n):
        for t in walk(a):
            if t.op == "elem" and t.a[0] is VM and (eq(field(t, "id"), z), True) in chosen_as(t):
                return t
    return None


def chosen_as(t):
    return subst_facts(t.a[1][2], {t.a[1][1]: t}) or EMPTY if isinstance(t.a[1], tuple) and len(t.a[1]) == 3 else EMPTY


def no_method(c, who, dids, relation):
    """a key that may be used is not described in the document"""
    for a, b in all_facts(c):
        if not (in_fact(a) and (a.a[1] == "None") == b):
            continue
        m = a.a[0].a[0]
        if m.op == "elem" and m.a[0].op == "f" and m.a[0].a[2] == "verification_method" and of_party(c, m.a[0], who, dids):
            for t, s in c.choice(m):
                if s and t.op == "eq" and any(x.op == "f" and x.a[2] == "id" for x in t.a):
                    z = [x for x in t.a if not (x.op == "f" and x.a[2] == "id")]
                    if z and z[0].op in ("elem", "idx") and (z[0].a[0] is field(m.a[0].a[0], relation) or found_list(z[0].a[0])):
                        return a
                    if z and z[0] is c.n(who) and c.variant(A("split_once", who, S("#"))) == "Some" and listed(c, who, field(m.a[0].a[0], relation)):
                        return a
    return None


def listed(c, who, KA):
    """the key asked for is known to be in the list"""
    for a, b in c.G:
        if in_fact(a) and (a.a[1] == "Some") == b and c.n(a.a[0].a[0].a[0]) is c.n(KA):
            if any(s and t.op == "eq" and c.n(who) in t.a for t, s in c.choice(a.a[0].a[0])):
                return True
    return False


def found_list(x):
    return x.op == "f" and x.a[1] == "Ok" and x.a[0].op == "app" and last(x.a[0].a[0]) == "find_secrets"


def no_usable(ctx, c, who, dids):
    """none of the keys that may be used is of a known kind"""
    names = algs_of(ctx)
    for KA in lists_of(c, "key_agreement"):
        if of_party(c, KA, who, dids):
            def known_kind(z, F):
                vm = method_facts(c, z.a[0], z, F)
                return (isv(key_alg_of(vm, *[a for a, _ in F]), "Unsupported", names), False) if vm is not None else (TRUE, True)
            if none_may(c, who, KA, known_kind):
                return KA
    return None


def odd_kind(c):
    """the keys are of a kind that there is no key agreement for"""
    n = {}
    for a, b in c.G:
        if a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:key_alg"):
            if b and a.a[1] not in CURVES and a.a[1] != "Unsupported":
                return a
            if not b:
                n.setdefault(a.a[0], set()).add(a.a[1])
    for x in n:
        if set(CURVES) <= n[x]:
            return x
    return None


def refused_keys(ctx, L, parties, undescribed, relation="key_agreement"):
    out = []

    def of(who, dids):
        return [
            ("DIDNotResolved", lambda a, b: not_found(a, b, dids, who)),
            ("=", lambda a, b: resolver_failed(a, b, dids)),
            ("DIDUrlNotFound", lambda c: no_candidate(c, who, dids, relation)),
            (undescribed, lambda c: no_method(c, who, dids, relation)),
        ]
    for _, who, dids in parties:
        out += of(who, dids)
    out.append(("=", lambda c: unreadable(c)))
    return out


def unreadable(c):
    for a, b in all_facts(c):
        if a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:as_") and (a.a[1] == "Err") == b:
            return a
    return None


def authcrypt(ctx, rep):
    rule = "sealed by the sender for the recipient"
    L = Layer(ctx, rep, rule, "authcrypt", ("to", "from", "dids", "secrets", "msg", "enca", "encb", "protect"), optional=False)
    if L.k is None:
        return
    to, frm, dids, secrets, msg, enca, encb, protect = L.args
    seen = set()
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c0 in cs:
                for c1 in branch(c0, A("split_once", to, S("#"))):
                    for c in branch(c1, A("split_once", frm, S("#"))):
                        w = L.w
                        text = pick(field(v, "0"), c)
                        if text.op == "alt":
                            rep.unk(rule, w, "whether the sender is protected is not known")
                            continue
                        outer = None
                        if not c.holds(protect, False):
                            w = w + ", sender protected"
                            outer = sealed(ctx, rep, rule, w + ", outer envelope", c, text, None, dids, to, encb)
                            if outer is None:
                                continue
                            rep.judge(rule, w + ", protected on request", c.holds(protect), "wrapped once more without being asked to", *[a for a, _ in c.G])
                            text = bare(outer["content"])
                        D = sealed(ctx, rep, rule, w, c, text, None, dids, to, enca, sender=frm)
                        if D is None:
                            continue
                        w = "%s, %s, %s" % (w, D["curve"], D["enc"])
                        seen.add((D["curve"], outer["enc"] if outer else None))
                        j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                        j("content", D["content"] is msg, "is " + show(D["content"], 100), D["content"])
                        if outer:
                            j("outer envelope for the same keys", outer["curve"] == D["curve"], "of another kind", text)
                        D["K"].ids(c, pick(field(v, "2"), c), "recipients reported", D["curve"])
                        kid = c.n(D["apu"])
                        j("sender reported", pick(field(v, "1"), c) is kid, "reported as " + show(field(v, "1"), 100), field(v, "1"))
                        own_key_of(ctx, rep, rule, w, c, D, kid, frm, to, dids, secrets)
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for cv in CURVES:
        for n in (None,) + tuple(ANON):
            rep.judge("every algorithm offered", L.w + ", %s, %s" % (cv, n or "sender told"), (cv, n) in seen, "never sealed", L.r.value)
    refusals(rep, L, refused_keys(ctx, L, [("to", to, dids), ("from", frm, dids)], "Malformed") + CRYPTO + [
        ("=", lambda c: fails(c, "find_secrets", "get_secret")),
        ("InvalidState", lambda c: no_secret(c, secrets)),
        ("SecretNotFound", lambda c: none_held(c, secrets)),
        ("NoCompatibleCrypto", lambda c: nothing_shared(ctx, c, to, frm, dids)),
        ("Unsupported", lambda c: odd_kind(c)),
    ])
    missing_told(rep, L, ("NoCompatibleCrypto",), [to, frm], dids, secrets)


def own_key_of(ctx, rep, rule, w, c, D, kid, frm, to, dids, secrets):
    """the sender key is the secret of a key agreement key of the sender, that the secrets resolver has, and the first that the recipient has one like"""
    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
    s, how, kk = key_source(D["skey"])
    g = made_by(s) if s is not None else NOTHING
    sk = D["skey"]
    good = g.op == "app" and last(g.a[0]) == "get_secret" and g.a[2][0] is secrets and s is someof(okof(g)) and sk in (okof(kk), field(okof(kk), "0", D["curve"]))
    j("sender key", good and c.ok(g) and c.some(okof(g)), "is " + show(sk, 120), sk)
    if not good:
        return
    j("sender key, read", c.ok(kk), "handed out though the key may not have been read", kk)
    j("sender key, the one told", c.n(g.a[2][1]) is kid, "is that of " + show(g.a[2][1], 100), g)
    # the key id: that of a method found for an id the resolver has
    vm = kid.a[0] if kid.op == "f" and kid.a[2] == "id" else None
    z = kid
    if vm is not None and vm.op == "elem":
        ids = [x for t, b in c.choice(vm) if b and t.op == "eq" and kid_of(vm) in t.a for x in t.a if x is not kid_of(vm)]
        z = ids[0] if ids else kid
    L = z.a[0] if z.op in ("elem", "idx") else None
    if L is None or not found_list(c.n(L)):
        j("sender key held", False, "is one the secrets resolver may not have: " + show(z, 120), z)
        return
    L = c.n(L)
    f = L.a[0]
    j("sender key held", f.a[2][0] is secrets, "another resolver is asked", f)
    F_ = Keys(ctx, rep, rule, w, dids, frm)
    got = F_.ids(c, bare(f.a[2][1]), "sender keys", None)
    if got is None:
        return
    Dd = got[0]
    if vm is not None:
        j("sender key described", vm.op in ("elem", "idx") and vm.a[0] is field(Dd, "verification_method"), "by another document than the sender's", vm)
    # chosen: the first of a kind that the recipient has too
    if z.op != "elem" or not isinstance(z.a[1], tuple) or z.a[1][0] != "first":
        j("choice of sender key", False, "not the first that may be used: " + show(z, 120), z)
        return
    names = algs_of(ctx)
    y, F = with_element(c.G, L, "c")
    gf = subst_facts(z.a[1][2], {z.a[1][1]: y})
    gf = narrowed(c, gf)
    KA = D["src"]
    r, F = with_element(F, KA, "r") if F is not None else (None, None)
    if F is None or gf is None:
        j("choice of sender key", False, "cannot be made", z)
        return
    need, other = candidate(c, to, r)
    vy = F_.method(c, mk("tuple", *[a for a, _ in gf]), y, Dd)
    if vy is None:
        j("choice of sender key", False, "of a kind that may be unknown", z)
        return
    vr = Keys(ctx, rep, rule, w, dids, to).method(c, mk("tuple", *[a for a, _ in F]), r, D["D"])
    ky = key_alg_of(vy, *[a for a, _ in gf])
    kr = key_alg_of(vr, *[a for a, _ in F]) if vr is not None else None
    j("choice of sender key, known kind", impossible(F, *(list(gf) + [(isv(ky, "Unsupported", names), True)])), "may be of an unknown kind", z)
    j("choice of sender key, shared kind", shares(c, gf, D["src"], ky), "the recipient may have none of its kind", z)
    if kr is None:
        rep.unk(rule, w + ", choice of sender key", "the recipient's keys are not looked at")
        return
    for a, b in told_apart(gf):
        for cv in CURVES:
            F2 = ext(F, frozenset(need + [(isv(ky, cv, names), True), (isv(kr, cv, names), True)]))
            ok_ = True
            for n in negated_exists(a, b, KA, r):
                ok_ = ok_ and impossible(F2, *n)
            j("choice of sender key, first shared", ok_, "passes over a key where not " + showf([(a, b)]), a)


def kid_of(vm):
    return field(vm, "id")


def negated_exists(a, b, KA, r):
    """the negation of a fact; that of 'some element of KA is so' said of the element r"""
    if in_fact(a) and (a.a[1] == "Some") == b:
        e = a.a[0].a[0]
        if e.op == "elem" and e.a[0] is KA and isinstance(e.a[1], tuple) and len(e.a[1]) == 3:
            g = subst_facts(e.a[1][2], {e.a[1][1]: r})
            return [list(negfacts(g))] if g is not None else []
    return [list(negfacts([(a, b)]))]


def narrowed(c, g):
    """the facts as they are where c holds: of alternatives that only one of is possible, that one"""
    if g is None or not any(a.op == "or" for a, _ in g):
        return g
    e = ext(c.G, g)
    hs = [h for h in (sat_cases(e) if e is not None else []) if not any(absurd(c2) for c2 in split(h))]
    if len(hs) != 1:
        return g
    return frozenset(f for f in hs[0] if f in g or f not in c.G)


def shares(c, g, KA, k):
    """the facts say that some element of KA is a key of the kind k"""
    for a, b in g:
        if in_fact(a) and (a.a[1] == "Some") == b:
            e = a.a[0].a[0]
            if e.op == "elem" and c.n(e.a[0]) is KA:
                for p, q in c.choice(e):
                    if q and p.op == "eq" and k in p.a:
                        return True
    return False


def no_secret(c, secrets):
    for a, b in all_facts(c):
        if a.op == "is" and a.a[1] in OPT and (a.a[1] == "None") == b and a.a[0].op == "f" and a.a[0].a[0].op == "app" and last(a.a[0].a[0].a[0]) == "get_secret" and a.a[0].a[0].a[2][0] is secrets:
            return a
    return None


def none_held(c, secrets):
    for a, b in c.G:
        x = a.a[0] if a.op == "empty" and b else None
        if x is None and in_fact(a) and (a.a[1] == "None") == b and (not isinstance(a.a[0].a[0].a[1], tuple) or not a.a[0].a[0].a[1][2]):
            x = a.a[0].a[0].a[0]
        if x is not None and found_list(x) and x.a[0].a[2][0] is secrets:
            return a
    return None


def nothing_shared(ctx, c, to, frm, dids):
    """no key of the sender's is of a kind that the recipient has a key of"""
    names = algs_of(ctx)
    for a, b in c.G:
        if not (in_fact(a) and (a.a[1] == "None") == b):
            continue
        L = a.a[0].a[0].a[0]
        if not found_list(L):
            continue
        y, F = with_element(c.G, L, "c")
        for KA in lists_of(c, "key_agreement"):
            if not of_party(c, KA, to, dids):
                continue
            if F is None:
                continue
            r, F2 = with_element(F, KA, "r")
            vy = [t for x, _ in F for t in walk(x) if t.op == "elem" and (eq(field(t, "id"), y), True) in chosen_as(t)]
            if not vy:
                continue
            good = True
            for c2 in branch(Canon(F2), A("split_once", to, S("#"))) if F2 is not None else ():
                need, _ = candidate(c2, to, r)
                for cv in CURVES:
                    ky = key_alg_of(vy[0], *[a for a, _ in c2.G])
                    F3 = ext(c2.G, frozenset(need + [(isv(ky, cv, names), True)]))
                    for F4 in told_of(F3, KA, r) if F3 is not None else ():
                        vr = method_facts(c2, KA, r, F4)
                        good = good and (impossible(F4) or vr is not None and impossible(F4, (isv(key_alg_of(vr, *[a for a, _ in F4]), cv, names), True)))
            if good:
                return a
    return None


def told_of(F, KA, r):
    """readings of F; 'no element of KA is so' is said of r too"""
    out = []
    for d in sat_cases(F):
        e = d
        for a, b in d:
            if e is not None and in_fact(a) and (a.a[1] == "None") == b and a.a[0].a[0].a[0] is KA and isinstance(a.a[0].a[0].a[1], tuple):
                x = a.a[0].a[0]
                g = subst_facts(x.a[1][2], {x.a[1][1]: r})
                if g is not None:
                    e = ext(e, frozenset(negfacts(told_apart(g)))) if g else None
        if e is not None:
            out += sat_cases(e)
    return out
