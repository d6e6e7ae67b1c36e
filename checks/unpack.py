"""Unpacking: what must be known before a layer is taken off, and what is told about it."""
from prov import *
from panics import no_panics
from model import error_of, ERR
from errors import *
from keys import contains_app

SIGS = {"EdDSA": ("Ed25519KeyPair", "EdDSA", "EdDSA"), "Es256": ("P256KeyPair", "ES256", "ES256"), "Es256K": ("K256KeyPair", "ES256K", "ES256K")}
FLAGS = ("encrypted", "authenticated", "non_repudiation", "anonymous_sender", "re_wrapped_in_forward")
META = FLAGS + ("encrypted_from_kid", "encrypted_to_kids", "sign_from", "from_prior_issuer_kid", "enc_alg_auth", "enc_alg_anon", "sign_alg", "signed_message", "from_prior")


def key_cuts(ctx):
    out = []
    for m in ("as_key_pair", "key_alg", "as_ed25519", "as_p256", "as_k256", "as_x25519"):
        for ty in ("Secret", "VerificationMethod"):
            out += ctx.find_fn(m, ty, "AsKnownKeyPair")
    return tuple(out)


class Layer(object):
    def __init__(self, ctx, rep, rule, name, args, self_ty=None, optional=True, cuts=(), peel=False):
        self.ctx, self.rep, self.name = ctx, rep, name
        self.optional = optional
        ks = ctx.find_fn(name, self_ty)
        self.k = ks[0] if ks else None
        if self.k is None:
            rep.unk(rule, name, "this layer of unpacking was not found")
            return
        self.w = where(ctx, self.k)
        b = ctx.P.insts[self.k]["body"]
        n = b["argc"] if "argc" in b else len(args)
        if n != len(args):
            rep.unk(rule, self.w, "takes other arguments")
            self.k = None
            return
        self.args = [sym(a) for a in args]
        self.r = run(ctx, self.k, *self.args, cuts=key_cuts(ctx) + tuple(cuts), tie=len(args) if args[-1] == "md" else None, peel=peel)
        no_panics(rep, self.r, self.w)
        self._cases = None

    def cases(self):
        """(tag, value, canonical facts, metadata) for every way the layer can end"""
        if self._cases is None:
            out = []
            for F0, x, md in self.r.pairs() if self.args[-1] is sym("md") else [(EMPTY, self.r.value, None)]:
                for F, tag, v in opened(x, F0):
                    if tag == "Ok" and not self.optional:
                        out.append(("taken", v, F, md))
                    elif tag == "Ok":
                        for g, y in cases(v):
                            e = ext(F, g)
                            if e is None:
                                continue
                            if y.op == "adt" and y.a[1] == "Some":
                                out.append(("taken", y.a[3][0], e, md))
                            elif y.op == "adt" and y.a[1] == "None":
                                out.append(("other", None, e, md))
                            else:
                                out.append((None, y, e, md))
                    elif tag == "Err":
                        out.append(("failed", v, F, md))
                    else:
                        out.append((None, v, F, md))
            self._cases = []
            for t, v, F, md in out:
                cs = split(F) if t != "failed" else []
                for c in cs:
                    c.md = md
                self._cases.append((t, v, cs, F))
        return self._cases

    def meta(self, c, name):
        """the metadata member after the call, and before"""
        return pick(c.md, c, lambda m: field(m, name)), field(self.args[-1], name)


def doc_of(c, vm, kid):
    """the DID document a verification method was taken from, and by which DID it was resolved"""
    if vm.op not in ("elem", "idx"):
        return None, None
    L = vm.a[0]
    if L.op != "f" or L.a[0].op != "f":
        return None, None
    d = L.a[0]
    if d.op == "f" and d.a[1] == "Some" and d.a[0].op == "f" and d.a[0].a[1] == "Ok" and d.a[0].a[0].op == "app" and last(d.a[0].a[0].a[0]) == "resolve":
        return d, d.a[0].a[0]
    return None, None


def among(c, L, x):
    """is x known to be one of the texts in L"""
    for a, b in list(c.F):
        if in_fact(a) and (a.a[1] == "Some") == b:
            e = a.a[0].a[0]
            if e.op == "elem" and c.n(e.a[0]) is L and c.n(e) is x:
                return True
    for t in c.rep:
        if t.op == "elem" and c.n(t.a[0]) is L and c.n(t) is x:
            return True
    return A("contains", L, x) in [a for a, b in c.G if b] or any(
        a.op == "app" and last(a.a[0]) == "contains" and a.a[2][0] is L and a.a[2][1] is x and b for a, b in c.G)


def key_source(key):
    """the verification method or secret a key was made from: (value, what it was made as)"""
    k = key
    while k.op == "f":
        k = k.a[0]
    if k.op == "app" and k.a[0].startswith("cut:as_"):
        return k.a[2][0], last(k.a[0][4:]), k
    return None, None, k


def signer_key(rep, rule, w, c, key, kid, relation, dids):
    """key is that of the verification method kid names, in the document of kid's DID, listed under the given relationship"""
    vm, how, k = key_source(key)
    if vm is None:
        rep.judge(rule, w + ", key", False, "made from " + show(k, 120), key)
        return None
    D, res = doc_of(c, vm, kid)
    if D is None:
        rep.judge(rule, w + ", key", False, "not that of a verification method of a resolved document", vm)
        return None
    rep.judge(rule, w + ", resolver", res.a[2][0] is dids and c.ok(res) and c.some(okof(res)), "not from a document the resolver returned", res)
    rep.judge(rule, w + ", document", did_part(res.a[2][1], kid) or c.n(res.a[2][1]) is c.n(field(someof(A("split_once", kid, S("#"))), "0")), "document of another DID: " + show(res.a[2][1], 120), res.a[2][1], kid)
    rep.judge(rule, w + ", verification methods", vm.a[0] is field(D, "verification_method"), "taken from " + show(vm.a[0], 100), vm)
    rep.judge(rule, w + ", verification method", c.n(field(vm, "id")) is kid, "the verification method may be another than the one named", c.n(field(vm, "id")), kid)
    rep.judge(rule, w + ", " + relation, among(c, field(D, relation), kid), "used without being listed under " + relation)
    return vm


def signed(ctx, rep):
    rule = "signature verified"
    L = Layer(ctx, rep, rule, "_try_unpack_sign", ("msg", "dids", "opts", "md"))
    if L.k is None:
        return
    J, S_, H, PH = (shape_of(ctx, ("payload", "signatures"), "JWS"), shape_of(ctx, ("header", "protected", "signature"), "Signature"),
                    shape_of(ctx, ("kid",), "Header"), shape_of(ctx, ("typ", "alg"), "ProtectedHeader", without=("apv",)))
    msg, dids = L.args[0], L.args[1]
    jws = okof(parsed(J.name, msg))
    sigs = J(jws, "signatures")
    s = index(sigs, C("int", 0))
    kid = H(S_(s, "header"), "kid")
    head = parsed(PH.name, okof(b64(S_(s, "protected"))))
    alg = PH(okof(head), "alg")
    body = b64(J(jws, "payload"))
    seen = set()
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in cs:
                w = L.w
                V = [x for x in c.positive("verify_signature") if c.holds(okof(x))]
                a = [n for n in SIGS if c.holds(isv(alg, n, alg_names(ctx, PH)))]
                name = a[0] if a else None
                if name:
                    w = "%s, %s" % (L.w, name)
                    seen.add(name)
                rep.judge(rule, w + ", one signature", sigs in c.single, "accepted with another number of signatures than one")
                if not V:
                    rep.judge(rule, w, False, "accepted without a signature found true", v, *[x for x, _ in c.G])
                    continue
                x = V[0]
                key, data, sig, st = x.a[2]
                rep.judge(rule, w + ", signed text", data is cat((S_(s, "protected"), S("."), J(jws, "payload"))), "verified over " + show(data, 160), data)
                rep.judge(rule, w + ", signature", sig is okof(b64(S_(s, "signature"))), "verified " + show(sig, 160), sig)
                rep.judge(rule, w + ", payload", c.n(v) is okof(body), "hands out " + show(c.n(v), 160), c.n(v))
                signer_key(rep, rule, w, c, key, kid, "authentication", dids)
                rep.judge(rule, w + ", algorithm", name is not None and any(SIGS[name][0] in t for t in x.a[1]), "verified as %s" % ", ".join(x.a[1]), alg)
                if name:
                    st = deep(c.n(st), c.G)
                    rep.judge(rule, w + ", signature type", st.op == "adt" and st.a[1] == "None" or st.op == "adt" and st.a[1] == "Some" and st.a[3][0].op == "adt" and st.a[3][0].a[1] == SIGS[name][1],
                              "verified as %s" % show(st, 80), st)
                told(rep, L, c, w, {"authenticated": TRUE, "non_repudiation": TRUE, "sign_from": some(kid), "signed_message": some(msg),
                                    "sign_alg": some(pred_variant(SIGS[name][2])) if name else ANY})
        elif tag == "other":
            for c in cs:
                rep.judge("layer recognised", L.w, c.holds(isv(parsed(J.name, msg), "Err", RES)), "a signed message taken for something else", *[x for x, _ in c.G])
                told(rep, L, c, L.w + ", no signature", {})
        elif tag == "failed":
            pass
        else:
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for n in SIGS:
        rep.judge("every algorithm accepted", L.w + ", " + n, n in seen, "never accepted", L.r.value)
    reasons = [
        ("Malformed", lambda a, b: none_such_sig(a, b, sigs)),
        ("Malformed", lambda a, b: failed(a, b, b64(S_(s, "protected"))) or failed(a, b, head)),
        ("Malformed", lambda a, b: a is eq(C("int", 1), length(sigs)) and not b or a.op == "empty" and a.a[0] is sigs and b),
        ("Malformed", lambda a, b: no_hash(a, b, kid)),
        ("DIDNotResolved", lambda a, b: not_found(a, b, dids, kid)),
        ("=", lambda a, b: resolver_failed(a, b, dids)),
        ("DIDUrlNotFound", lambda a, b: none_of(a, b, ("authentication", "verification_method"))),
        ("Unsupported", lambda a, b: a.op == "is" and a.a[0] is alg and a.a[1] == "Other" and b),
        ("Malformed", lambda a, b: failed_app(a, b, "verify_signature") or false_app(a, b, "verify_signature")),
        ("=", lambda a, b: a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:as_") and (a.a[1] == "Err") == b),
        ("Malformed", lambda a, b: failed(a, b, b64(S_(s, "signature")))),
        ("Malformed", lambda a, b: failed(a, b, body) or a.op in ("is_utf8", "app") and "is_utf8" in (a.op, a.a[0]) and not b),
    ]
    refusals(rep, L, reasons)


def alg_names(ctx, PH):
    for p, a in ctx.P.adts.items():
        if a.get("local") and a["kind"] == "enum" and {"EdDSA", "Es256"} <= set(v["name"] for v in a["variants"]):
            return tuple(v["name"] for v in a["variants"])
    return ("EdDSA", "Es256", "Es256K", "Other")


def pred_variant(n):
    return pred(lambda v, F: v.op == "adt" and v.a[1] == n, n)


def told(rep, L, c, w, want):
    """the metadata says exactly this, and is otherwise as before"""
    for m in META:
        got, old = L.meta(c, m)
        got = deep(c.n(got), c.G)
        if m in want:
            t = want[m]
            if t is ANY:
                continue
            if same_value(got, t):
                rep.ok("metadata", "%s, %s" % (w, m))
            else:
                rep.judge("metadata", "%s, %s" % (w, m), False, "told as " + show(got, 120), got)
        else:
            rep.judge("metadata", "%s, %s" % (w, m), got is c.n(old), "changed to " + show(got, 120), got)


def same_value(x, t):
    if x is t:
        return True
    if t.op == "pred":
        return t.a[1].f(x, EMPTY)
    if x.op == "adt" and t.op == "adt" and x.a[1] == t.a[1] and x.a[2] == t.a[2]:
        return all(same_value(p, q) for p, q in zip(x.a[3], t.a[3]))
    return False


# ---------------------------------------------------------------- refusals

def failed(a, b, x):
    return a.op == "is" and a.a[0] is x and (a.a[1] == "Err") == b


def failed_app(a, b, name):
    return a.op == "is" and a.a[0].op == "app" and last(a.a[0].a[0]) == name and (a.a[1] == "Err") == b


def false_app(a, b, name):
    return a.op == "f" and a.a[1] == "Ok" and a.a[0].op == "app" and last(a.a[0].a[0]) == name and not b


def no_hash(a, b, kid):
    """kid has no '#'"""
    if a.op == "is" and a.a[0].op == "app" and last(a.a[0].a[0]) in ("split_once", "find") and a.a[0].a[2][0] is kid:
        return (a.a[1] == "None") == b
    return a.op == "app" and last(a.a[0]) == "contains" and a.a[2][0] is kid and not b


def not_found(a, b, dids, kid):
    return a.op == "is" and a.a[1] in OPT and (a.a[1] == "None") == b and a.a[0].op == "f" and a.a[0].a[0].op == "app" and \
        last(a.a[0].a[0].a[0]) == "resolve" and a.a[0].a[0].a[2][0] is dids


def resolver_failed(a, b, dids):
    return failed_app(a, b, "resolve") and a.a[0].a[2][0] is dids


def none_of(a, b, members):
    """no element of a member list is as asked"""
    if in_fact(a) and (a.a[1] == "None") == b:
        L = a.a[0].a[0].a[0]
        return L.op == "f" and L.a[2] in members
    if a.op == "empty" and b:
        return a.a[0].op == "f" and a.a[0].a[2] in members
    return False


def none_such_sig(a, b, sigs):
    """a header that does not parse"""
    if in_fact(a):
        e = a.a[0].a[0]
        if e.op == "elem" and e.a[0] is sigs and (a.a[1] == "Some") == b and isinstance(e.a[1], tuple):
            g = e.a[1][2]
            return any(failed_app(p, q, "b64url") or failed_app(p, q, "json") for p, q in g)
    return False


def reasoned(F, reasons, out, fits=None):
    """appends (canonical facts, reasons found) so that every reading of F is under one of them; reasons [] : none found

    Once a reason is found that fits, no others are looked for."""
    F = TM.pruned(F)
    base = frozenset(f for f in F if not (f[0].op == "or" and f[1]))
    c = Canon(base)
    if c.G is None:
        return
    why = set()
    G = sorted(c.G, key=lambda f: f[0].n)
    o = TM.smallest_or(F)
    reasons_ = [r for r in reasons if not fits or fits(r[0], None, c)]
    if o is None:
        reasons_ += [r for r in reasons if r not in reasons_]
    for kind, f in sorted(reasons_, key=lambda r: (r[0] == "=", r[1].__code__.co_argcount == 1)) if o is not None else reasons_:
        if f.__code__.co_argcount == 1:
            a = f(c)
            if a is not None and a is not False:
                why.add((kind, a))
        else:
            for a, b in G:
                if f(a, b):
                    why.add((kind, a))
        if why and fits and any(fits(k, a, c) for k, a in why):
            break
    if why and (not fits or o is None or any(fits(k, a, c) for k, a in why)):
        out.append((c, why))
        return
    if o is None:
        # alternatives in what an element that exists was chosen for
        for a, b in G:
            if in_fact(a) and (a.a[1] == "Some") == b and isinstance(a.a[0].a[0].a[1], tuple) and len(a.a[0].a[0].a[1]) == 3:
                z = a.a[0].a[0]
                g = frozenset(f for f in subst_facts(z.a[1][2], {z.a[1][1]: z}) or EMPTY if f not in F and f not in c.G)
                if any(t.op == "or" for t, _ in g):
                    e = ext(F, g)
                    if e is not None and e != F:
                        return reasoned(e, reasons, out, fits)
        out.append((c, why))
        return
    for d in o[0].a[0]:
        e = ext(F - {o}, d)
        if e is not None:
            reasoned(e, reasons, out, fits)


def refusals(rep, L, reasons, rule="sound messages accepted", kinds="errors told apart"):
    """every refusal has one of the reasons, and an error of that reason's kind"""
    n = 0
    reasons = list(reasons) + [("InvalidState", lambda a, b: a.op == "is" and a.a[1] == "Io" and b)]
    rounds = getattr(L, "rounds", {})
    for tag, v, cs, F in L.cases():
        if tag != "failed":
            continue
        for h, kd in cases(field(v, "kind")):
            e = ext(F, h) if h else F
            if e is None:
                continue
            def fits(k, a, c, kd=kd):
                kd2 = deep(c.n(kd), c.G)
                if kd2.op == "adt":
                    return k in (kd2.a[1], "*")
                return k == "=" and (a is None or kept(kd2, a))

            def go(e, depth):
                n = 0
                out = []
                reasoned(e, reasons, out, fits)
                for c2, why in out:
                    kd2 = deep(c2.n(kd), c2.G)
                    good = bool(why) and any(fits(k, a, c2) for k, a in why)
                    if not good and absurd(c2):
                        continue
                    if not good and depth < 3:
                        finer = told_more(c2.F)
                        if finer is not None:
                            n += sum(go(e2, depth + 1) for e2 in finer)
                            continue
                    n += 1
                    if not good and L.r.drops:
                        rep.unk(rule, L.w, "too many alternatives to tell why it refuses")
                        continue
                    if not why:
                        rep.judge(rule, L.w, False, "refused as %s where " % show(kd2, 60) + showf(c2.G), *[subst(a, rounds) for a, _ in c2.G])
                        continue
                    rep.judge(kinds, "%s, %s" % (L.w, "/".join(sorted(set(k for k, _ in why)))), good, "error of kind %s though %s, where %s" % (show(kd2, 80), ", ".join(sorted(show(a, 200) for _, a in why)), showf(c2.G)), kd2)
                return n
            n += go(e, 0)
    if n:
        rep.ok(rule, L.w + ", %d refusals" % n)


def told_more(F):
    """the readings of F that also tell a condition (not about the element) that elements are chosen by, None if all are known"""
    for a in loose(F):
        out = []
        for b in (True, False):
            e = ext(F, frozenset([(a, b)]))
            if e is not None and sat(e) and not all(absurd(c) for c in split(e)):
                out.append(e)
        return out
    return None


def loose(F):
    """conditions that elements are chosen by, that are not about the element and not known"""
    seen = {}
    for a, _ in sorted(F, key=lambda f: f[0].n):
        if not in_fact(a):
            continue
        z = a.a[0].a[0]
        if z.op == "elem" and isinstance(z.a[1], tuple) and len(z.a[1]) == 3:
            for p, _ in z.a[1][2]:
                for q in [t for d in p.a[0] for t, _ in d] if p.op == "or" else [p]:
                    if q.op in ("is", "eq", "empty") and not q.lv and not in_fact(q) and simp(q, F) is q:
                        seen[q] = True
    return sorted(seen, key=lambda t: t.n)


def kept(kd, a):
    """the kind is that of the failure a"""
    return contains(kd, a.a[0]) if a.op == "is" else False


def showf(G):
    return ", ".join(sorted("%s%s" % ("" if b else "not ", show(a, 120)) for a, b in G))[:900]


# ---------------------------------------------------------------- decryption

ENC = {"A256cbcHs512": "A256CbcHs512", "Xc20P": "XC20P", "A256Gcm": "A256Gcm"}
ANON = {"A256cbcHs512": "A256cbcHs512EcdhEsA256kw", "Xc20P": "Xc20pEcdhEsA256kw", "A256Gcm": "A256gcmEcdhEsA256kw"}
AUTH = {"A256cbcHs512": "A256cbcHs512Ecdh1puA256kw"}
CURVES = {"X25519": "X25519KeyPair", "P256": "P256KeyPair"}


class Jwe(object):
    """the parts of an encrypted message, as they are named once it is read"""

    def __init__(self, ctx, msg):
        self.J = shape_of(ctx, ("protected", "recipients", "iv", "ciphertext", "tag"), "JWE")
        self.R = shape_of(ctx, ("header", "encrypted_key"), "Recipient")
        self.H = shape_of(ctx, ("kid",), "PerRecipientHeader")
        self.PH = shape_of(ctx, ("typ", "alg", "enc", "skid", "apu", "apv", "epk"), "ProtectedHeader")
        self.parse = parsed(self.J.name, msg)
        j = okof(self.parse)
        self.protected = self.J(j, "protected")
        self.recipients = self.J(j, "recipients")
        self.iv, self.ct, self.tag = [b64(self.J(j, n)) for n in ("iv", "ciphertext", "tag")]
        self.headbytes = b64(self.protected)
        self.head = parsed(self.PH.name, okof(self.headbytes))
        h = okof(self.head)
        self.alg, self.enc, self.skid, self.apu_, self.apv_, self.epk = [self.PH(h, n) for n in ("alg", "enc", "skid", "apu", "apv", "epk")]
        self.apv = b64(self.apv_)
        self.apu = b64(someof(self.apu_))

    def kid(self, r):
        return self.H(self.R(r, "header"), "kid")

    def key(self, r):
        return b64(self.R(r, "encrypted_key"))

    def kids(self, e=None):
        e = e or mk("elem", self.recipients, 0)
        return lst(comp(self.recipients, e, EMPTY, self.kid(e)))


def enum_of(ctx, *names):
    for p, a in ctx.P.adts.items():
        if a.get("local") and a["kind"] == "enum" and set(names) <= set(v["name"] for v in a["variants"]):
            return tuple(v["name"] for v in a["variants"])
    return names


def not_variant(c, x, v):
    w = c.variant(x)
    return w not in (None, v) or any(a.op == "is" and a.a[0] is c.n(x) and a.a[1] == v and not b for a, b in c.G)


def is_kids(x, E):
    """x is the list of all recipients' key ids"""
    if x.op == "list" and len(x.a) == 1 and x.a[0].op == "comp":
        src, e, g, v = x.a[0].a
        g = frozenset(f for f in g or () if not in_fact(f[0]))
        return src is E.recipients and not g and v is E.kid(e)
    return False


def call_of(out):
    """the call whose in-place result this is"""
    if out.op == "app" and out.a[0].startswith("out") and ":" in out.a[0]:
        return mk("app", out.a[0].split(":", 1)[1], out.a[1], out.a[2])
    return None


def succeeded(c, call):
    """was the call (with the same arguments) found to succeed"""
    return c.holds(isv(call, "Ok", RES))


def decrypted(ctx, rep, rule, w, c, p, E, secrets, alg, sender=None):
    """p must be the content, authenticated and decrypted with a key of a recipient of the message; what it was decrypted with"""
    j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
    call = call_of(p)
    if call is None or last(call.a[0]) != "decrypt_in_place":
        rep.judge(rule, w, False, "hands out " + show(p, 160), p)
        return None
    j("content", succeeded(c, call), "handed out though decryption may have failed", call)
    cek, buf, iv, aad = (list(call.a[2]) + [None] * 4)[:4]
    j("ciphertext and tag", bare(buf) is lst(mk("all", okof(E.ct)), mk("all", okof(E.tag))), "decrypts " + show(buf, 160), buf)
    j("iv", bare(iv) is okof(E.iv), "iv is " + show(iv, 120), iv)
    j("protected header bound", bare(aad) is E.protected, "additional data is " + show(aad, 120), aad)
    k = cek.a[0] if cek.op == "f" else cek
    if not (k.op == "app" and last(k.a[0]) == "from_secret_bytes"):
        j("content key", False, "is " + show(cek, 160), cek)
        return None
    j("content key", k.a[1] == call.a[1], "made as another kind of key: " + ", ".join(k.a[1]))
    kc = call_of(bare(k.a[2][0]))
    if kc is None or last(kc.a[0]) != "decrypt_in_place":
        j("content key", False, "is made from " + show(k.a[2][0], 160), k.a[2][0])
        return None
    j("content key unwrapped", succeeded(c, kc), "used though unwrapping may have failed", kc)
    kw, kb, kiv, kad = (list(kc.a[2]) + [None] * 4)[:4]
    j("key wrapping", any("A256Kw" in t for t in kc.a[1]) and empty(kiv) is TRUE and empty(kad) is TRUE, "unwrapped with %s" % ", ".join(kc.a[1]), kw)
    src = bare(kb)
    r = None
    if src.op == "f" and src.a[0].op == "app" and src.a[0].a[0] == URL and src.a[0].a[2][0].op == "f":
        r = src.a[0].a[2][0]
        while r.op == "f" and r.a[0] is not E.recipients:
            r = r.a[0]
    if r is None or E.key(r) is not src.a[0] or not (r.op in ("elem", "idx") and r.a[0] is E.recipients):
        j("wrapped key", False, "is " + show(src, 160), src)
        return None
    d = kw.a[0] if kw.op == "f" else kw
    if not (d.op == "app" and last(d.a[0]) == "from_key_derivation"):
        j("key derivation", False, "wrapping key is " + show(kw, 160), kw)
        return None
    n = d.a[2][0]
    want_kdf = "EcdhEs" if sender is None else "Ecdh1PU"
    if not (n.op == "app" and last(n.a[0]) == "new" and want_kdf in n.a[0]):
        j("key derivation", False, "%s is required, not %s" % (want_kdf, show(n, 100)), n)
        return None
    args = list(n.a[2])
    skey = args.pop(1) if sender is not None else None
    ccrv = [x for x in CURVES if any(CURVES[x] in t for t in n.a[1])]
    epk, key, al, apu, apv = args[:5]
    curve = ccrv[0] if ccrv else None
    q = epk.a[0] if epk.op == "f" else epk
    good = q.op == "app" and last(q.a[0]) == "from_jwk" and any(CURVES.get(curve, "?") in t for t in q.a[1]) and epk_source(q.a[2][0]) is E.epk
    j("ephemeral key", good, "is " + show(epk, 160), epk)
    s, how, kk = key_source(key)
    kid = None
    if s is None or how != "as_key_pair" or key is not field(okof(kk), "0", curve):
        j("recipient key", False, "is " + show(key, 160), key)
    else:
        g = s
        while g.op == "f":
            g = g.a[0]
        good = g.op == "app" and last(g.a[0]) == "get_secret" and g.a[2][0] is secrets and s is someof(okof(g))
        j("recipient key", good and c.variant(okof(kk)) == curve, "is not a secret from the secrets resolver", s)
        if good:
            kid = g.a[2][1]
            j("recipient", c.n(E.kid(r)) is c.n(kid) or c.holds(eq(E.kid(r), kid)) or (eq(E.kid(r), kid), True) in c.choice(r), "the wrapped key may be another recipient's: " + show(E.kid(r), 200) + " / " + show(kid, 200), E.kid(r), kid)
            among_found(rep, j, c, kid, E, secrets)
    enc = c.variant(E.enc)
    if enc is None and kid is not None and kid.op == "elem":
        # told by every key's having been used in the same way
        _, Fz = with_element(c.G, kid.a[0])
        vs = [a.a[2] for a, b in Fz or () if a.op == "is" and a.a[0] is E.enc]
        vs += [x.a[2] for a, b in Fz or () for x in walk(a) if x.op == "is" and x.a[0] is E.enc]
        enc = ([v for v in ENC if vs and impossible(Fz, (mk("is", E.enc, v, vs[0]), False))] + [None])[0]
    j("content encryption", enc in ENC and any(ENC[enc] in t for t in call.a[1]), "%s decrypted with %s" % (enc, ", ".join(call.a[1])), E.enc)
    j("algorithm id", al is S(alg), "is " + show(al, 80), al)
    if sender is None:
        j("apu", all(empty(x) is TRUE or is_apu(c, x, E) for _, x in cases(apu)), "is " + show(apu, 120), apu)
    else:
        j("apu", is_apu(c, apu, E), "is " + show(apu, 120), apu)
    j("apv", bare(apv) is okof(E.apv), "is " + show(apv, 120), apv)
    if sender is not None:
        j("tag bound", any(bare(x) is okof(E.tag) for x in args[5:]), "the content's tag does not go into the wrapping key", n)
    j("direction", args[-1] is TRUE, "derives as the sender does", args[-1])
    return {"enc": enc, "curve": curve, "kid": kid, "r": r, "skey": skey, "call": call, "unwrap": kc, "key": key}


def epk_source(x):
    x = x.a[0] if x.op == "f" and x.a[1] == "Ok" else x
    if x.op == "app" and last(x.a[0]) in ("to_string", "to_vec", "from_value", "to_value") and "serde_json" in x.a[0]:
        return epk_source(x.a[2][0])
    return x


def is_apu(c, apu, E):
    apu = bare(apu)
    if apu is okof(E.apu):
        return True
    # equal to the sender's id it was taken from
    return c.n(okof(E.apu)) is apu or c.holds(eq(apu, okof(E.apu)))


def among_found(rep, j, c, kid, E, secrets):
    """the key id is one of those the secrets resolver says it has, out of the recipients'"""
    if kid.op in ("elem", "idx") and kid.a[0].op == "f" and kid.a[0].a[0].op == "app" and last(kid.a[0].a[0].a[0]) == "find_secrets":
        f = kid.a[0].a[0]
        j("recipient keys held", f.a[2][0] is secrets and is_kids(f.a[2][1], E), "asked for " + show(f.a[2][1], 120), f)
    else:
        j("recipient keys held", False, "tried with " + show(kid, 120), kid)


def one_did(rep, rule, w, c, E):
    """every recipient key is a DID URL, all of one DID"""
    z, F = with_element(c.G, E.recipients)
    if F is None:
        rep.unk(rule, w + ", recipients", "no recipient")
        return
    k, k0 = E.kid(z), E.kid(index(E.recipients, C("int", 0)))
    s, s0 = A("split_once", k, S("#")), A("split_once", k0, S("#"))
    some_ = lambda x: (isv(x, "Some", OPT), True)
    terms = [a for a, _ in F]
    rep.judge(rule, w + ", recipients are DID URLs", impossible(F, (isv(s, "None", OPT), True)), "a recipient without a key id passes", *terms)
    d, d0 = field(someof(s), "0"), field(someof(s0), "0")
    same = impossible(F, some_(s), some_(s0), (eq(d, d0), False))
    if not same:
        # any two of them, compared by way of a third
        y, F2 = with_element(F, E.recipients, "y")
        s1 = A("split_once", E.kid(y), S("#"))
        same = impossible(F2, some_(s), some_(s1), (eq(d, field(someof(s1), "0")), False))
    rep.judge(rule, w + ", recipients of one DID", same, "recipients of different DIDs pass", *terms)


def other_keys(c, D):
    """(what goes wrong, is it ruled out, facts) of any key the secrets resolver has"""
    kid = D["kid"]
    z, F = with_element(c.G, kid.a[0])
    if F is None:
        return None
    m = lambda t: subst(t, {kid: z})
    key = m(D["key"])
    s, how, kk = key_source(key)
    g = s
    while g.op == "f":
        g = g.a[0]
    crv = (isv(okof(kk), D["curve"], ("X25519", "P256", "Ed25519", "K256")), True)
    for a, b in c.G:
        if a.op == "is" and a.a[0].op == "f" and key_source(a.a[0])[0] is not None and a.a[1] == D["curve"]:
            crv = (mk("is", okof(kk), D["curve"], a.a[2]), True)
    terms = [a for a, _ in F]
    un, call = m(D["unwrap"]), m(D["call"])
    return [(what, impossible(F, *fs), terms) for what, fs in (
        ("whose secret cannot be read", [is_err(g)]), ("whose secret is absent", [is_ok(g), (isv(okof(g), "None", OPT), True)]),
        ("that is unusable", [is_ok(g), (isv(okof(g), "Some", OPT), True), is_err(kk)]),
        ("that does not unwrap the content key", [crv, is_err(un)]), ("that does not decrypt the content", [crv, is_ok(un), is_err(call)]))]


def all_keys(rep, w, c, D):
    """nothing is handed out unless every key found decrypts"""
    rule = "decrypted by all keys"
    kid = D["kid"]
    if kid is None or kid.op not in ("elem", "idx"):
        rep.unk(rule, w, "keys tried are not followed")
        return
    for what, ruled_out, terms in other_keys(c, D) or ():
        rep.judge(rule, w + ", key " + what, ruled_out, "handed out in spite of a key " + what, *terms)


def readable(rep, w, L, E, other_alg):
    """what is not an encrypted message of this kind is passed on, unchanged"""


def encrypted(ctx, rep, name, args, alg_variant, alg_id, algs):
    rule = "decrypted with a recipient's key"
    L = Layer(ctx, rep, rule, name, args)
    if L.k is None:
        return None
    msg, secrets, opts = L.args[0], L.args[args.index("secrets")], L.args[args.index("opts")]
    dids = L.args[args.index("dids")] if "dids" in args else None
    E = Jwe(ctx, msg)
    names = enum_of(ctx, "EcdhEsA256kw", "Ecdh1puA256kw")
    seen = set()
    lone = {}
    everything = field(opts, "expect_decrypt_by_all_keys")
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in cs:
                w0 = L.w
                rep.judge("layer recognised", w0, c.variant(E.alg) == alg_variant, "decrypts messages of another algorithm", E.alg)
                hashed(rep, w0, c, E)
                sender_said(rep, w0, c, E)
                one_did(rep, "one recipient DID", w0, c, E)
                told_enc = None
                for g, p in cases(pick(v, c)):
                    e = ext(c.F, g)
                    for c2 in [z for y in ([c] if not g else split(e) if e is not None else []) for z in settled(y, p)]:
                        c2.md = c.md
                        p2 = c2.n(p)
                        D = decrypted(ctx, rep, rule, w0, c2, p2, E, secrets, alg_id, sender=dids)
                        if D is None:
                            continue
                        if D["kid"] is not None and D["kid"].op == "elem" and with_element(c2.G, D["kid"].a[0])[1] is None:
                            continue
                        w = "%s, %s, %s" % (w0, D["curve"], D["enc"])
                        seen.add((D["curve"], D["enc"]))
                        if not c2.holds(everything, False):
                            all_keys(rep, w, c2, D)
                        if not c2.holds(everything, True) and D["kid"] is not None and D["kid"].op in ("elem", "idx"):
                            lone.setdefault((D["curve"], D["enc"]), []).append(other_keys(c2, D) or [])
                        want = {"encrypted": TRUE}
                        want["enc_alg_" + ("auth" if dids is not None else "anon")] = some(pred_variant(algs.get(D["enc"])))
                        if dids is None:
                            want["anonymous_sender"] = TRUE
                        else:
                            skid = c2.n(okof(E.apu))
                            sk = D["skey"]
                            vm, how, kk = key_source(sk)
                            rep.judge("sender authenticated", w + ", kind of key", vm is not None and sk is field(okof(kk), "0", D["curve"]), "sender key is " + show(sk, 120), sk)
                            signer_key(rep, "sender authenticated", w, c2, sk, skid, "key_agreement", dids)
                            want["authenticated"] = TRUE
                            want["encrypted_from_kid"] = some(skid)
                        old = field(L.args[-1], "encrypted_to_kids")
                        for there in (("Some", "None") if dids is not None else ("",)):
                            want["encrypted_to_kids"] = pred(lambda x, F_: x.op == "adt" and x.a[1] == "Some" and is_kids(x.a[3][0], E), "all recipients")
                            if there == "Some":
                                # those of the outer envelope stay
                                want["encrypted_to_kids"] = old
                            e = ext(c2.F, frozenset([(isv(old, there, OPT), True)])) if there else c2.F
                            for c3 in split(e) if there and e is not None else [c2]:
                                c3.md = c.md
                                told(rep, L, c3, w, want)
        elif tag == "other":
            for c in cs:
                good = c.holds(is_err(E.parse)[0]) or (not_variant(c, E.alg, alg_variant) and c.ok(E.head))
                rep.judge("layer recognised", L.w, good, "an encrypted message taken for something else", *[x for x, _ in c.G])
                told(rep, L, c, L.w + ", another kind of message", {})
        elif tag != "failed":
            rep.unk(rule, L.w, "outcome not followed: " + show(v, 100))
    for cv in CURVES:
        for n in algs:
            rep.judge("every algorithm accepted", L.w + ", %s, %s" % (cv, n), (cv, n) in seen, "never accepted", L.r.value)
    # unless the caller asks for it, the keys that come after the one used need not work
    for (cv, n), ways in sorted(lone.items()):
        for what in sorted(set(x[0] for fs in ways for x in fs)):
            free = any(x[0] == what and not x[1] for fs in ways for x in fs)
            rep.judge("one key is enough", L.w + ", %s, %s, another key %s" % (cv, n, what), free,
                      "without expect_decrypt_by_all_keys, refused because of another key " + what, *[t for fs in ways for x in fs for t in x[2]])
    refusals(rep, L, refused_jwe(E, secrets, opts, dids))


def refused_jwe(E, secrets, opts, dids):
    """why an encrypted message of the right kind may be refused"""
    apu, skid, rs = E.apu, E.skid, E.recipients
    isin = lambda a, L: in_fact(a) and a.a[0].a[0].op == "elem" and a.a[0].a[0].a[0] is L
    curves = ("X25519", "P256")

    def found(x):
        return x.op == "f" and x.a[1] == "Ok" and x.a[0].op == "app" and last(x.a[0].a[0]) == "find_secrets"

    def wrong_apv(c):
        for a, b in c.G:
            if a.op == "eq" and not b and okof(E.apv) in a.a and any(is_hash(y, E) for y in a.a):
                return a

    def skid_differs(c):
        if c.holds(isv(skid, "Some", OPT)):
            if c.holds(isv(E.apu_, "None", OPT)):
                return E.apu_
            for a, b in c.G:
                if a.op == "eq" and not b and okof(apu) in a.a and someof(skid) in a.a:
                    return a

    def other_did(c):
        for a, b in c.G:
            if isin(a, rs) and (a.a[1] == "Some") == b:
                e = a.a[0].a[0]
                F = ext(c.G, c.choice(e))
                k = E.kid(e)
                s = A("split_once", k, S("#"))
                others = [E.kid(index(rs, C("int", 0)))]
                for f, _ in F or ():
                    for x in walk(f):
                        if (x.op == "app" and x.a[0] == "last" or x.op == "idx") and is_kids(x.a[0] if x.op == "idx" else x.a[2][0], E):
                            others.append(x)
                        elif x.op == "idx" and x.a[0] is rs or x.op == "app" and x.a[0] == "last" and x.a[2][0] is rs:
                            others.append(E.kid(x))
                for k0 in dict.fromkeys(others):
                    s0 = A("split_once", k0, S("#"))
                    if impossible(F, (isv(s, "Some", OPT), True), (isv(s0, "Some", OPT), True), (eq(field(someof(s), "0"), field(someof(s0), "0")), True)):
                        return a
        k0 = A("split_once", E.kid(index(rs, C("int", 0))), S("#"))
        return k0 if c.holds(isv(k0, "None", OPT)) else None

    def is_key(x):
        return x.op == "f" and x.a[1] == "Ok" and x.a[0].op == "app" and x.a[0].a[0].startswith("cut:as_")

    def unheard_of(c):
        """a key id the resolver gave is not a recipient's"""
        for a, b in c.G:
            if isin(a, rs) and (a.a[1] == "None") == b:
                e = a.a[0].a[0]
                for p, q in c.choice(e):
                    if p.op == "eq" and q and E.kid(e) in p.a:
                        x = p.a[1 - p.a.index(E.kid(e))]
                        if x.op in ("elem", "idx") and found(x.a[0]):
                            return a

    def unusable(c):
        """the algorithm or a key's curve is not one that is supported"""
        if dids is None:
            for a, b in c.G:
                if a.op == "is" and a.a[0] is E.enc and b and a.a[1] not in ENC:
                    return a
                if a.op == "is" and a.a[0].op == "f" and is_key(a.a[0]) and b and a.a[1] not in curves:
                    return a
            if all(not_variant(c, E.enc, v) for v in ENC):
                return E.enc
        else:
            if not_variant(c, E.enc, "A256cbcHs512"):
                return E.enc
        for a, b in c.G:
            if a.op == "is" and is_key(a.a[0]) and all(not_variant(c, a.a[0], v) for v in curves):
                return a

    def other_curve(c):
        if dids is None:
            return None
        ks = set(a.a[0] for a, b in c.G if a.op == "is" and a.a[1] in curves and is_key(a.a[0]))
        for x in ks:
            for y in ks:
                if x is not y and {c.variant(x), c.variant(y)} == set(curves):
                    return x

    out = [
        ("Malformed", lambda a, b: failed(a, b, E.headbytes) or failed(a, b, E.head) or failed(a, b, E.apu) or failed(a, b, E.apv)),
        ("Malformed", wrong_apv),
        ("Malformed", skid_differs),
        ("Malformed", lambda a, b: a.op == "empty" and a.a[0] is rs and b),
        ("Malformed", other_did),
        ("=", lambda a, b: failed_app(a, b, "find_secrets") and a.a[0].a[2][0] is secrets),
        ("SecretNotFound", lambda a, b: a.op == "empty" and found(a.a[0]) and b),
        ("=", lambda a, b: failed_app(a, b, "get_secret") and a.a[0].a[2][0] is secrets),
        ("InvalidState", lambda a, b: a.op == "is" and a.a[1] in OPT and (a.a[1] == "None") == b and a.a[0].op == "f" and a.a[0].a[0].op == "app" and
         last(a.a[0].a[0].a[0]) == "get_secret"),
        ("=", lambda a, b: a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:as_") and (a.a[1] == "Err") == b),
        ("Unsupported", unusable),
        ("Malformed", other_curve),
        ("InvalidState", unheard_of),
        ("Malformed", lambda a, b: a.op == "is" and a.a[0].op == "app" and a.a[0].a[0] == URL and (a.a[1] == "Err") == b),
        ("Malformed", lambda a, b: failed_app(a, b, "from_jwk")),
        ("*", lambda a, b: failed_app(a, b, "to_string")),
        ("InvalidState", lambda a, b: failed_app(a, b, "from_key_derivation") or failed_app(a, b, "derive_key")),
        ("Malformed", lambda a, b: failed_app(a, b, "from_secret_bytes") or failed_app(a, b, "decrypt_in_place")),
        ("Malformed", lambda a, b: "is_utf8" in (a.op, a.a[0]) and not b),
    ]
    if dids is None:
        # there is no sender to name
        out.append(("*", lambda a, b: a.op == "is" and a.a[0] is E.apu_ and (a.a[1] == "Some") == b))
    else:
        def sender_url(c):
            s = A("split_once", c.n(okof(apu)), S("#"))
            return s if c.holds(isv(s, "None", OPT)) else None
        out += [
            ("Malformed", lambda a, b: a.op == "is" and a.a[0] is E.apu_ and (a.a[1] == "None") == b),
            ("Malformed", sender_url),
            ("DIDNotResolved", lambda a, b: not_found(a, b, dids, None)),
            ("=", lambda a, b: resolver_failed(a, b, dids)),
            ("DIDUrlNotFound", lambda a, b: none_of(a, b, ("key_agreement", "verification_method"))),
        ]
    return out


def hashed(rep, w, c, E):
    """apv is the hash of all recipients' key ids"""
    for a, b in c.G:
        for x, y in ((a.a, a.a[::-1]) if a.op == "eq" and b else ()):
            if x is okof(E.apv) and is_hash(y, E):
                rep.ok("recipients bound", w)
                return
    for y, x in c.rep.items():
        if okof(E.apv) in (x, y) and (is_hash(x, E) or is_hash(y, E)):
            rep.ok("recipients bound", w)
            return
    rep.judge("recipients bound", w, False, "accepted though apv may not be the hash of the recipients", *[a for a, _ in c.G if contains_app(a, "digest")])


def is_hash(y, E):
    if not (y.op == "app" and y.a[0] == "digest" and "Sha256" in y.a[1]):
        return False
    t = y.a[2][0]
    if not (t.op == "app" and last(t.a[0]) == "join" and t.a[2][1] is S(".")):
        return False
    t = t.a[2][0]
    return t.op == "app" and last(t.a[0]) == "sort" and is_kids(t.a[2][0], E)


def sender_said(rep, w, c, E):
    """skid, if there is one, is what apu says"""
    F = [(isv(E.skid, "Some", OPT), True)]
    apu = okof(E.apu)
    rep.judge("sender id bound", w, impossible(c.G, *(F + [(isv(E.apu_, "None", OPT), True)])) and
              impossible(c.G, *(F + [(isv(E.apu_, "Some", OPT), True), (eq(c.n(apu), c.n(someof(E.skid))), False)])), "skid may differ from apu", *[a for a, _ in c.G])


def anoncrypted(ctx, rep):
    encrypted(ctx, rep, "_try_unpack_anoncrypt", ("msg", "secrets", "opts", "md"), "EcdhEsA256kw", "ECDH-ES+A256KW", ANON)


def authcrypted(ctx, rep):
    encrypted(ctx, rep, "_try_unpack_authcrypt", ("msg", "dids", "secrets", "opts", "md"), "Ecdh1puA256kw", "ECDH-1PU+A256KW", AUTH)


def from_prior(ctx, rep):
    """a rotation claim is believed only under a valid signature of the prior DID"""
    rule = "claim signed by the prior DID"
    L = Layer(ctx, rep, rule, "unpack", ("jwt", "dids"), "FromPrior", optional=False)
    if L.k is None:
        return
    w0 = L.w
    H, P = shape_of(ctx, ("typ", "alg", "kid"), "CompactHeader", without=("apv",)), shape_of(ctx, ("iss", "sub", "exp"), "FromPrior")
    jwt, dids = L.args
    parts = A("split", jwt, S("."))
    seg = [index(parts, C("int", k)) for k in range(3)]
    headbytes, body = b64(seg[0]), b64(seg[1])
    head = parsed(H.name, okof(headbytes))
    typ, alg, kid = [H(okof(head), x) for x in ("typ", "alg", "kid")]
    claim = parsed(P.name, okof(body))
    iss = P(okof(claim), "iss")
    seen = set()
    three = lambda c: c.holds(mk("count", parts, 3))
    for tag, v, cs, F in L.cases():
        for c in cs:
            x = other_cuts([a for a, b in c.G] + [c.n(v)], jwt)
            if x is not None:
                rep.unk(rule, w0, "the token is cut in a way that is not followed: " + show(x, 100))
                return
    for tag, v, cs, F in L.cases():
        if tag == "taken":
            for c in cs:
                w = w0
                V = [x for x in c.positive("verify_signature") if c.holds(okof(x))]
                a = [n for n in SIGS if c.holds(isv(alg, n, alg_names(ctx, H)))]
                name = a[0] if a else None
                if name:
                    w = "%s, %s" % (w0, name)
                    seen.add(name)
                if not V:
                    rep.judge(rule, w, False, "accepted without a signature found true", v, *[x for x, _ in c.G])
                    continue
                x = V[0]
                key, data, sig, st = x.a[2]
                v = c.n(v)
                j = lambda what, good, detail, *t: rep.judge(rule, w + ", " + what, good, detail, *t)
                j("three parts", three(c), "accepted with another number of parts than three", *[y for y, _ in c.G])
                j("media type", c.n(typ) is S("JWT"), "accepted as another type than JWT", c.n(typ))
                j("signed text", data is cat((seg[0], S("."), seg[1])), "verified over " + show(data, 160), data)
                j("signature", sig is okof(b64(seg[2])), "verified " + show(sig, 160), sig)
                signer_key(rep, rule, w, c, key, kid, "authentication", dids)
                j("algorithm", name is not None and any(SIGS[name][0] in t for t in x.a[1]), "verified as %s" % ", ".join(x.a[1]), alg)
                if name:
                    st = deep(c.n(st), c.G)
                    j("signature type", st.op == "adt" and st.a[1] == "None" or st.op == "adt" and st.a[1] == "Some" and st.a[3][0].op == "adt" and st.a[3][0].a[1] == SIGS[name][1],
                      "verified as %s" % show(st, 80), st)
                got = [c.n(field(v, n)) for n in ("0", "1")]
                j("claim", same_struct(c, got[0], okof(claim)), "hands out " + show(got[0], 160), got[0])
                j("issuer key id", got[1] is c.n(kid), "hands out " + show(got[1], 160), got[1])
                s = A("split_once", kid, S("#"))
                did = field(someof(s), "0")
                j("issuer", impossible(c.G, (isv(s, "Some", OPT), True), (eq(c.n(iss), c.n(did)), False)), "a claim about another DID than the signer's is accepted", *[y for y, _ in c.G if contains_app(y, "split_once")])
        elif tag != "failed":
            rep.unk(rule, w0, "outcome not followed: " + show(v, 100))
    for n in SIGS:
        rep.judge("every algorithm accepted", w0 + ", " + n, n in seen, "never accepted", L.r.value)

    def other_issuer(c):
        s = A("split_once", kid, S("#"))
        if c.holds(isv(s, "Some", OPT)) and c.holds(eq(c.n(iss), c.n(field(someof(s), "0"))), False):
            return s
        return None

    refusals(rep, L, [
        ("Malformed", lambda c: c.holds(mk("count", parts, 3), False)),
        ("Malformed", lambda a, b: failed(a, b, headbytes) or failed(a, b, head) or failed(a, b, claim)),
        ("Malformed", lambda a, b: a.op == "eq" and not b and typ in a.a and S("JWT") in a.a),
        ("Malformed", lambda a, b: no_hash(a, b, kid)),
        ("DIDNotResolved", lambda a, b: not_found(a, b, dids, kid)),
        ("=", lambda a, b: resolver_failed(a, b, dids)),
        ("DIDUrlNotFound", lambda a, b: none_of(a, b, ("authentication", "verification_method"))),
        ("Unsupported", lambda a, b: a.op == "is" and a.a[0] is alg and a.a[1] == "Other" and b),
        ("Malformed", lambda a, b: failed_app(a, b, "verify_signature") or false_app(a, b, "verify_signature")),
        ("=", lambda a, b: a.op == "is" and a.a[0].op == "app" and a.a[0].a[0].startswith("cut:as_") and (a.a[1] == "Err") == b),
        ("Malformed", lambda a, b: failed(a, b, b64(seg[2]))),
        ("Malformed", lambda a, b: failed(a, b, body) or a.op in ("is_utf8", "app") and "is_utf8" in (a.op, a.a[0]) and not b),
        ("Malformed", other_issuer),
    ])
