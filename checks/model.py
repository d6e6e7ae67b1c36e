"""Plain data: messages, attachments, DID documents, secrets, options."""
from common import *

PLAIN = "application/didcomm-plain+json"


# ---------------------------------------------------------------- messages

MSG_FIELDS = ("id", "typ", "type_", "body", "from", "to", "thid", "pthid", "extra_headers", "created_time", "expires_time", "from_prior", "attachments")


def message_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("Message"), {
        "id": ("id", "req"), "typ": ("typ", ("default", S(PLAIN))), "type_": ("type", "req"), "body": ("body", "req"),
        "from": ("from", "opt"), "to": ("to", "opt"), "thid": ("thid", "opt"), "pthid": ("pthid", "opt"),
        "created_time": ("created_time", "opt"), "expires_time": ("expires_time", "opt"), "from_prior": ("from_prior", "opt"),
        "attachments": ("attachments", "opt"), "extra_headers": ("*", "flatten")}, "Message")
    types(ctx, rep, "Message", {"created_time": "u64", "expires_time": "u64"})


def from_prior_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("FromPrior"), {
        "iss": ("iss", "req"), "sub": ("sub", "req"), "aud": ("aud", "opt"), "exp": ("exp", "opt"), "nbf": ("nbf", "opt"),
        "iat": ("iat", "opt"), "jti": ("jti", "opt")}, "FromPrior")
    types(ctx, rep, "FromPrior", {"exp": "u64", "nbf": "u64", "iat": "u64"})


WIDE = {"u64": ("u64", "u128", "usize", "i128", "serde_json::number::Number", "serde_json::value::Value")}


def types(ctx, rep, name, want):
    """numeric members keep their whole range"""
    p = ctx.adt(name)
    if p is None:
        return
    for f in wire.fields(ctx, p):
        w = want.get(f.rust)
        if w:
            t = f.ty
            if t.startswith("core::option::Option<"):
                t = t[len("core::option::Option<"):-1]
            rep.judge("value range", "struct %s, field %s" % (p, f.rust), t in WIDE[w], "%s cannot hold every %s" % (t, w))


def builder(ctx, rep, ty, make, make_args, init, setters, finalize="finalize"):
    """A builder gives back what was put in.  make: constructor; init: expected members of the fresh product;
    setters: {method: (args, {member: function(old product member, args) -> expected})}"""
    mk_ = the_fn(ctx, rep, "builder", make[1], make[0])
    fin = the_fn(ctx, rep, "builder", finalize, ty)
    if mk_ is None or fin is None:
        return
    r = run(ctx, mk_, *make_args)
    f = run(ctx, fin, r.value)
    names = product_fields(ctx, f.value)
    for m, want in init.items():
        rep.same("fresh product", where(ctx, mk_) + ", member " + m, member(f.value, m), want, notes=f.notes + r.notes)
    b = sym("builder")
    base = run(ctx, fin, b)
    rep.judge("product retained", where(ctx, fin), base.value.op == "adt", "not a product", base.value)
    for meth, (args, effect) in setters.items():
        k = the_fn(ctx, rep, "builder", meth, ty)
        if k is None:
            continue
        s = run(ctx, k, b, *args)
        g = run(ctx, fin, s.value)
        for m in names:
            old = member(base.value, m)
            want = effect[m](old, *args) if m in effect else old
            rep.same("retained by " + meth, where(ctx, k) + ", member " + m, member(g.value, m), want, notes=s.notes + g.notes)


def product_fields(ctx, v):
    for _, w in cases(v):
        if w.op == "adt":
            return list(w.a[2])
    return []


def put(old, x):
    return some(x)


def append_one(old, x):
    return alt([(g, some(lst(mk("all", field(old, "0", "Some")), one(x)))) for g in cases_bool(isv(old, "Some", ONCE), True)] +
               [(g, some(lst(one(x)))) for g in cases_bool(isv(old, "Some", ONCE), False)])


def append_all(old, x):
    return alt([(g, some(lst(mk("all", field(old, "0", "Some")), mk("all", x)))) for g in cases_bool(isv(old, "Some", ONCE), True)] +
               [(g, some(x)) for g in cases_bool(isv(old, "Some", ONCE), False)])


def message_builder(ctx, rep):
    a, b, c = sym("a"), sym("b"), sym("c")
    x = sym("x")
    opt = {m: NONE for m in ("from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments")}
    builder(ctx, rep, "MessageBuilder", ("Message", "build"), (a, b, c),
            dict(opt, id=a, type_=b, body=c, typ=S(PLAIN), extra_headers=mk("map", ())),
            {"to": ((x,), {"to": append_one}), "to_many": ((x,), {"to": append_all}),
             "from": ((x,), {"from": put}), "thid": ((x,), {"thid": put}), "pthid": ((x,), {"pthid": put}),
             "created_time": ((x,), {"created_time": put}), "expires_time": ((x,), {"expires_time": put}),
             "from_prior": ((x,), {"from_prior": put}),
             "attachment": ((x,), {"attachments": append_one}), "attachments": ((x,), {"attachments": append_all}),
             "header": ((sym("k"), sym("v")), {"extra_headers": lambda old, k, v: models.map_put(old, k, v)})})


def message_typ_const(ctx, rep):
    fin = the_fn(ctx, rep, "media type", "finalize", "MessageBuilder")
    if fin is None:
        return
    r = run(ctx, fin, sym("builder"))
    rep.same("media type", where(ctx, fin) + ", member typ", member(r.value, "typ"), S(PLAIN))


def from_prior_builder(ctx, rep):
    a, b, x = sym("a"), sym("b"), sym("x")
    builder(ctx, rep, "FromPriorBuilder", ("FromPrior", "build"), (a, b),
            {"iss": a, "sub": b, "aud": NONE, "exp": NONE, "nbf": NONE, "iat": NONE, "jti": NONE},
            {m: ((x,), {m: put}) for m in ("aud", "exp", "nbf", "iat", "jti")})


# ---------------------------------------------------------------- attachments

def attachment_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("Attachment"), {
        "data": ("data", "req"), "id": ("id", "opt"), "description": ("description", "opt"), "filename": ("filename", "opt"),
        "media_type": ("media_type", "opt"), "format": ("format", "opt"), "lastmod_time": ("lastmod_time", "opt"), "byte_count": ("byte_count", "opt")}, "Attachment")
    types(ctx, rep, "Attachment", {"lastmod_time": "u64", "byte_count": "u64"})
    for t, sp in (("Base64AttachmentData", {"base64": ("base64", "req"), "jws": ("jws", "opt")}),
                  ("JsonAttachmentData", {"json": ("json", "req"), "jws": ("jws", "opt")}),
                  ("LinksAttachmentData", {"links": ("links", "req"), "hash": ("hash", "req"), "jws": ("jws", "opt")})):
        wire.check_struct(ctx, rep, ctx.adt(t), sp, t)
    untagged(ctx, rep, "AttachmentData", {"Base64": "Base64AttachmentData", "Json": "JsonAttachmentData", "Links": "LinksAttachmentData"})


def untagged(ctx, rep, name, variants):
    """an enum told apart by its content: each kind is written as its own members only, and no kind shadows another"""
    p = ctx.adt(name)
    w = "enum %s" % (p or name)
    if p is None:
        rep.bad("kinds told apart", w, "the type is gone")
        return
    a = ctx.P.adts[p]
    for tr in (wire.SER, wire.DE):
        if wire.derives(ctx, p, tr) is False:
            rep.unk("kinds told apart", w, "hand-written conversion")
            return
    rep.judge("kinds told apart", w, bool(wire.get(a["attrs"], "untagged")), "values are no longer told apart by their content (not untagged)")
    need = {}
    order = []
    for v in a["variants"]:
        if wire.get(v["attrs"], "skip") or wire.get(v["attrs"], "skip_deserializing") or wire.get(v["attrs"], "skip_serializing"):
            rep.bad("kinds told apart", w + ", variant " + v["name"], "skipped")
            continue
        names = set()
        for f in wire.fields(ctx, p, v["name"]):
            if f.flatten:
                q = ctx.adt(f.ty.split("<")[0].split("::")[-1])
                if q is None:
                    names = None
                    break
                for g in wire.fields(ctx, q):
                    if not g.flatten and wire.default_value(ctx, q, g) is None:
                        names.add(g.de[0])
            elif wire.default_value(ctx, p, f) is None:
                names.add(f.de[0])
        need[v["name"]] = names
        order.append(v["name"])
    for v, inner in variants.items():
        if v not in need:
            rep.bad("kinds told apart", w, "no kind %s" % v)
            continue
        fs = wire.fields(ctx, p, v)
        if isinstance(inner, str):
            good = len(fs) == 1 and fs[0].ty.split("<")[0].endswith(inner) and (fs[0].flatten or fs[0].rust == "0")
            rep.judge("kinds told apart", w + ", variant " + v, good, "not written as the members of %s" % inner)
        else:
            got = {f.rust: f for f in fs}
            for rust, wn in inner.items():
                f = got.get(rust)
                rep.judge("kinds told apart", w + ", variant %s, member %s" % (v, wn), f is not None and f.ser == wn and f.de == (wn,) and not f.flatten and not f.skip_ser and not f.skip_de and not f.with_,
                          "not read and written as \"%s\"" % wn)
    # a kind whose required members are a subset of a later kind's is taken first, and hides it
    for i, x in enumerate(order):
        for y in order[i + 1:]:
            if need.get(x) is None or need.get(y) is None:
                continue
            rep.judge("kinds told apart", w + ", %s before %s" % (x, y), not need[x] <= need[y],
                      "every %s is taken for a %s (required members %s)" % (y, x, sorted(need[x])))


def attachment_builder(ctx, rep):
    x = sym("x")
    D = ctx.adt("AttachmentData")
    common = {m: NONE for m in ("id", "description", "filename", "media_type", "format", "lastmod_time", "byte_count")}

    def data(kind, sub, **m):
        a = ctx.P.adts.get(ctx.adt(sub) or "")
        if a is None:
            return ANY
        names = [f["name"] for f in a["variants"][0]["fields"]]
        inner = adt(ctx.adt(sub), sub, names, [m.get(n, NONE) for n in names])
        v = [v for v in ctx.P.adts[D]["variants"] if v["name"] == kind][0]
        return adt(D, kind, [f["name"] for f in v["fields"]], [inner])

    def jws_of(old, x):
        # the signature is set on whatever kind of data there is
        cs = []
        for kind, sub in (("Base64", "Base64AttachmentData"), ("Json", "JsonAttachmentData"), ("Links", "LinksAttachmentData")):
            v = [v for v in ctx.P.adts[D]["variants"] if v["name"] == kind][0]
            fn = v["fields"][0]["name"]
            names = [f["name"] for f in ctx.P.adts[ctx.adt(sub)]["variants"][0]["fields"]]
            cur = field(old, fn, kind)
            inner = adt(ctx.adt(sub), sub, names, [some(x) if n == "jws" else field(cur, n) for n in names])
            for g in cases_bool(isv(old, kind, TM.ENUMS[D]), True):
                cs.append((g, adt(D, kind, (fn,), (inner,))))
        return alt(cs)
    setters = {m: ((x,), {m: put}) for m in common}
    setters["jws"] = ((x,), {"data": jws_of})
    for make, args, d in (("base64", (sym("a"),), data("Base64", "Base64AttachmentData", base64=sym("a"))),
                          ("json", (sym("a"),), data("Json", "JsonAttachmentData", json=sym("a"))),
                          ("links", (sym("a"), sym("b")), data("Links", "LinksAttachmentData", links=sym("a"), hash=sym("b")))):
        builder(ctx, rep, "AttachmentBuilder", ("Attachment", make), args, dict(common, data=d), setters if make == "base64" else {})


# ---------------------------------------------------------------- DID documents and secrets

METHOD_TYPES = ("JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019",
                "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020")


def did_doc_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("DIDDoc"), {
        "id": ("id", "req"), "key_agreement": ("keyAgreement", "any"), "authentication": ("authentication", "any"),
        "verification_method": ("verificationMethod", "any"), "service": ("service", "any")}, "DIDDoc")
    wire.check_struct(ctx, rep, ctx.adt("VerificationMethod"), {
        "id": ("id", "req"), "type_": ("type", "req"), "controller": ("controller", "any"), "verification_material": ("*", "flatten")}, "VerificationMethod")
    wire.check_enum_names(ctx, rep, ctx.adt("VerificationMethodType"), {t: t for t in METHOD_TYPES}, "VerificationMethodType")
    untagged(ctx, rep, "VerificationMaterial", {"JWK": {"public_key_jwk": "publicKeyJwk"}, "Multibase": {"public_key_multibase": "publicKeyMultibase"},
                                                "Base58": {"public_key_base58": "publicKeyBase58"}})


def service_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("Service"), {"id": ("id", "req"), "service_endpoint": ("*", "flatten")}, "Service")
    p = ctx.adt("ServiceKind")
    w = "enum %s" % (p or "ServiceKind")
    if p is None:
        rep.bad("service kinds", w, "the type is gone")
    else:
        a = ctx.P.adts[p]
        if wire.derives(ctx, p, wire.DE) is False or wire.derives(ctx, p, wire.SER) is False:
            rep.unk("service kinds", w, "hand-written conversion")
        else:
            rep.judge("service kinds", w, wire.get(a["attrs"], "tag") == "type", "kind not told by \"type\"")
            rep.judge("service kinds", w, wire.get(a["attrs"], "content") == "serviceEndpoint", "endpoint not under \"serviceEndpoint\"")
            vs = {v["name"]: v for v in a["variants"]}
            v = vs.get("DIDCommMessaging")
            if v is None:
                rep.bad("service kinds", w, "no DIDCommMessaging kind")
            else:
                s, d = wire.names_of(v["attrs"], a["attrs"], "DIDCommMessaging", True)
                rep.judge("service kinds", w + ", variant DIDCommMessaging", s == "DIDCommMessaging" and "DIDCommMessaging" in d, "called \"%s\"" % s)
                fs = wire.fields(ctx, p, "DIDCommMessaging")
                rep.judge("service kinds", w + ", variant DIDCommMessaging", len(fs) == 1 and (fs[0].flatten or fs[0].rust == "0") and fs[0].ty.endswith("DIDCommMessagingService"),
                          "the endpoint is not the members of DIDCommMessagingService")
    wire.check_struct(ctx, rep, ctx.adt("DIDCommMessagingService"), {
        "uri": ("uri", "req"), "accept": ("accept", "opt"), "routing_keys": ("routingKeys", ("default", lst()), "lossless")}, "DIDCommMessagingService")


def secret_wire(ctx, rep):
    wire.check_struct(ctx, rep, ctx.adt("Secret"), {"id": ("id", "req"), "type_": ("type", "req"), "secret_material": ("*", "flatten")}, "Secret")
    wire.check_enum_names(ctx, rep, ctx.adt("SecretType"), {t: t for t in METHOD_TYPES}, "SecretType")
    untagged(ctx, rep, "SecretMaterial", {"JWK": {"private_key_jwk": "privateKeyJwk"}, "Multibase": {"private_key_multibase": "privateKeyMultibase"},
                                          "Base58": {"private_key_base58": "privateKeyBase58"}})


# ---------------------------------------------------------------- envelopes

JWE_ONLY = ("enc", "apv", "epk", "apu")


def jwe_wire(ctx, rep):
    wire.check_struct(ctx, rep, shape(ctx, ("protected", "recipients", "iv", "ciphertext", "tag"), "JWE"), {
        n: (n, "req") for n in ("protected", "recipients", "iv", "ciphertext", "tag")}, "JWE")
    wire.check_struct(ctx, rep, shape(ctx, ("typ", "alg", "enc", "skid", "apu", "apv", "epk")), {
        "typ": ("typ", "opt", "lossless"), "alg": ("alg", "req"), "enc": ("enc", "req"), "skid": ("skid", "opt"), "apu": ("apu", "opt"),
        "apv": ("apv", "req"), "epk": ("epk", "req")}, "JWE protected header")
    wire.check_struct(ctx, rep, shape(ctx, ("header", "encrypted_key"), "Recipient"), {"header": ("header", "req"), "encrypted_key": ("encrypted_key", "req")}, "JWE recipient")
    wire.check_struct(ctx, rep, shape(ctx, ("kid",), "PerRecipientHeader"), {"kid": ("kid", "req")}, "JWE recipient header")


def jws_wire(ctx, rep):
    wire.check_struct(ctx, rep, shape(ctx, ("signatures", "payload"), "JWS"), {n: (n, "req") for n in ("signatures", "payload")}, "JWS")
    wire.check_struct(ctx, rep, shape(ctx, ("header", "protected", "signature"), "Signature"), {n: (n, "req") for n in ("header", "protected", "signature")}, "JWS signature")
    wire.check_struct(ctx, rep, shape(ctx, ("typ", "alg"), "ProtectedHeader", JWE_ONLY), {n: (n, "req") for n in ("typ", "alg")}, "JWS protected header")
    wire.check_struct(ctx, rep, shape(ctx, ("typ", "alg", "kid"), "CompactHeader", JWE_ONLY), {n: (n, "req") for n in ("typ", "alg", "kid")}, "compact JWS header")
    wire.check_struct(ctx, rep, shape(ctx, ("kid",), "Header"), {"kid": ("kid", "req")}, "JWS unprotected header")


JWE_ALGS = {"Ecdh1puA256kw": "ECDH-1PU+A256KW", "EcdhEsA256kw": "ECDH-ES+A256KW"}
JWE_ENCS = {"A256cbcHs512": "A256CBC-HS512", "Xc20P": "XC20P", "A256Gcm": "A256GCM"}
JWS_ALGS = {"EdDSA": "EdDSA", "Es256": "ES256", "Es256K": "ES256K"}


def enum_of(ctx, struct_names, member, hint=None, without=()):
    """type of a member of the type with those members"""
    p = shape(ctx, struct_names, hint, without)
    if p is None:
        return None
    for f in wire.fields(ctx, p):
        if f.ser == member or f.rust == member or member in f.de:
            t = f.ty.replace("core::option::Option<", "").rstrip(">")
            return t if t in ctx.P.adts else None
    return None


HEADER = ("typ", "alg", "enc", "skid", "apu", "apv", "epk")


def algorithm_names(ctx, rep):
    for p, table, what in ((enum_of(ctx, HEADER, "alg"), JWE_ALGS, "JWE alg"), (enum_of(ctx, HEADER, "enc"), JWE_ENCS, "JWE enc"),
                           (enum_of(ctx, ("typ", "alg"), "alg", "ProtectedHeader", JWE_ONLY + ("kid",)), JWS_ALGS, "JWS alg")):
        wire.check_enum_names(ctx, rep, p, table, what, other="Other")
        if p is None:
            continue
        # wherever an identifier is produced as text, it is the one on the wire
        vs = TM.ENUMS[p]
        for k in ctx.find_fn("as_str", p):
            r = run(ctx, k, sym("alg"))
            want = alt([(g, S(table[v]) if v in table else field(sym("alg"), "0", v)) for v in vs for g in cases_bool(isv(sym("alg"), v, vs), True)])
            rep.same("identifier as text", where(ctx, k), r.value, want, notes=r.notes)
        for k in ctx.find_fn("sig_type", p):
            r = run(ctx, k, sym("alg"))
            pairs = {"EdDSA": "EdDSA", "Es256": "ES256", "Es256K": "ES256K"}
            cs = []
            for v in vs:
                for g in cases_bool(isv(sym("alg"), v, vs), True):
                    if v in pairs:
                        want = ok(pred(lambda x, F, n=pairs[v]: x.op == "adt" and x.a[1] == n, "signature type " + pairs[v]))
                    else:
                        want = err(error_of("Unsupported"))
                    cs.append((g, want))
            rep.same("signature type", where(ctx, k), r.value, alt(cs), notes=r.notes)


CALLER_ALGS = {"AnonCryptAlg": ("A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"),
               "AuthCryptAlg": ("A256cbcHs512Ecdh1puA256kw",), "SignAlg": ("EdDSA", "ES256", "ES256K")}


def caller_algs(ctx, rep):
    """the algorithms as the caller names and sees them (options and metadata in JSON)"""
    for ty, names in CALLER_ALGS.items():
        wire.check_enum_names(ctx, rep, ctx.adt(ty), {n: n for n in names}, ty)


# what is reported about a message: {type: {member: name}}
REPORTS = {
    "UnpackMetadata": ("encrypted", "authenticated", "non_repudiation", "anonymous_sender", "re_wrapped_in_forward", "encrypted_from_kid",
                       "encrypted_to_kids", "sign_from", "from_prior_issuer_kid", "enc_alg_auth", "enc_alg_anon", "sign_alg", "signed_message", "from_prior"),
    "PackEncryptedMetadata": ("messaging_service", "from_kid", "sign_by_kid", "to_kids"),
    "MessagingServiceMetadata": ("id", "service_endpoint"),
    "PackSignedMetadata": ("sign_by_kid",),
    "ParsedForward": ("msg", "next", "forwarded_msg"),
}


def reports(ctx, rep):
    for ty, names in REPORTS.items():
        wire.check_struct(ctx, rep, ctx.adt(ty), {n: (n, "any", "absent") for n in names}, ty, de=False)


ERR = "didcomm::error::Error"


def error_of(*kinds):
    """any error of one of the given kinds"""
    return adt(ERR, "Error", ("kind", "source"), (pred(lambda k, F: k.op == "adt" and k.a[1] in kinds, " or ".join(kinds)), ANY))


def default_algs(ctx, rep):
    for ty, var in (("AnonCryptAlg", "Xc20pEcdhEsA256kw"), ("AuthCryptAlg", "A256cbcHs512Ecdh1puA256kw")):
        p = ctx.adt(ty)
        k = the_fn(ctx, rep, "default algorithm", "default", ty, "Default", quiet=True)
        if p is None:
            rep.bad("default algorithm", ty, "the type is gone")
            continue
        if k is None:
            # a derived Default
            v = wire.type_default(ctx, p)
            rep.same("default algorithm", "Default for " + p, v, adt(p, var, (), ()))
            continue
        r = run(ctx, k)
        rep.same("default algorithm", where(ctx, k), r.value, adt(p, var, (), ()), notes=r.notes)


# ---------------------------------------------------------------- options

def options(ctx, rep):
    p = ctx.adt("PackEncryptedOptions")
    A, B_ = ctx.adt("AnonCryptAlg"), ctx.adt("AuthCryptAlg")
    auth = adt(B_, "A256cbcHs512Ecdh1puA256kw", (), ())
    anon = adt(A, "Xc20pEcdhEsA256kw", (), ())
    wire.check_struct(ctx, rep, p, {
        "protect_sender": ("protect_sender", ("default", FALSE)), "forward": ("forward", ("default", TRUE)),
        "forward_headers": ("forward_headers", "opt"), "messaging_service": ("messaging_service", "opt"),
        "enc_alg_auth": ("enc_alg_auth", ("default", auth)), "enc_alg_anon": ("enc_alg_anon", ("default", anon))}, "PackEncryptedOptions", ser=False)
    q = ctx.adt("UnpackOptions")
    wire.check_struct(ctx, rep, q, {
        "expect_decrypt_by_all_keys": ("expect_decrypt_by_all_keys", ("default", FALSE)),
        "unwrap_re_wrapping_forward": ("unwrap_re_wrapping_forward", ("default", FALSE))}, "UnpackOptions", ser=False)
    for ty, want in (("PackEncryptedOptions", {"protect_sender": FALSE, "forward": TRUE, "forward_headers": NONE, "messaging_service": NONE,
                                               "enc_alg_auth": auth, "enc_alg_anon": anon}),
                     ("UnpackOptions", {"expect_decrypt_by_all_keys": FALSE, "unwrap_re_wrapping_forward": FALSE})):
        k = the_fn(ctx, rep, "defaults", "default", ty, "Default")
        if k is None:
            continue
        r = run(ctx, k)
        for m, w in want.items():
            rep.same("defaults", where(ctx, k) + ", member " + m, member(r.value, m), w, notes=r.notes)


# ---------------------------------------------------------------- bundled resolvers

def first_with_id(L, key):
    e = mk("elem", L, 0)
    G = frozenset([(eq(field(e, "id"), key), True)])
    x = chosen("first", L, e, G)
    return x, exists_fact(L, e, G)


def resolvers(ctx, rep):
    for ty, tr, meth in (("ExampleDIDResolver", "DIDResolver", "resolve"), ("ExampleSecretsResolver", "SecretsResolver", "get_secret")):
        new = the_fn(ctx, rep, "exact lookup", "new", ty)
        k = the_fn(ctx, rep, "exact lookup", meth, ty, tr)
        if new is None or k is None:
            continue
        L, key = sym("known"), sym("key")
        r0 = run(ctx, new, L)
        r = run(ctx, k, r0.value, key)
        x, ex = first_with_id(L, key)
        want = ok(alt([(frozenset([ex]), some(x)), (frozenset([neg_fact(ex)]), NONE)]))
        rep.same("exact lookup", where(ctx, k), r.value, want, notes=r.notes)
        if meth == "get_secret":
            k = the_fn(ctx, rep, "exact lookup", "find_secrets", ty, tr)
            if k is None:
                continue
            ids = sym("ids")
            r = run(ctx, k, r0.value, ids)
            e = mk("elem", ids, 0)
            x, ex = first_with_id(L, e)
            want = ok(lst(comp(ids, e, [ex], e)))
            rep.same("known ids kept in order", where(ctx, k), r.value, want, notes=r.notes)


def neg_fact(f):
    a, b = f
    if a.op == "is" and len(a.a[2]) == 2:
        o = [v for v in a.a[2] if v != a.a[1]][0]
        return (mk("is", a.a[0], o, a.a[2]), b)
    return (a, not b)
