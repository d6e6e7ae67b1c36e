"""From key material to keys."""
from common import *
from panics import no_panics
from models import lt
from envelope import *
from errors import *

NAMES = {"VerificationMethod": ("VerificationMethodType", "VerificationMaterial", "verification_material", "public"),
         "Secret": ("SecretType", "SecretMaterial", "secret_material", "private")}
PAIR = {"Ed25519": "Ed25519KeyPair", "X25519": "X25519KeyPair", "P256": "P256KeyPair", "K256": "K256KeyPair"}
JWKS = (("EC", "P-256", "P256"), ("EC", "secp256k1", "K256"), ("OKP", "Ed25519", "Ed25519"), ("OKP", "X25519", "X25519"))
ENCODED = {("X25519KeyAgreementKey2019", "Base58"): "X25519", ("Ed25519VerificationKey2018", "Base58"): "Ed25519",
           ("X25519KeyAgreementKey2020", "Multibase"): "X25519", ("Ed25519VerificationKey2020", "Multibase"): "Ed25519"}
CODEC = {("X25519", "public"): 0xEC, ("Ed25519", "public"): 0xED, ("X25519", "private"): 0x1302, ("Ed25519", "private"): 0x1300}
REJECT = ("Malformed", "IllegalArgument")
JV = "serde_json::value::Value"


def materials(ctx, ty):
    """(type variant, material variant, the value) for every combination"""
    tn, mn, fname, pp = NAMES[ty]
    A, T, M = ctx.adt(ty), ctx.adt(tn), ctx.adt(mn)
    if not (A and T and M):
        return
    names = tuple(f["name"] for f in ctx.P.adts[A]["variants"][0]["fields"])
    for t in ctx.P.adts[T]["variants"]:
        for m in ctx.P.adts[M]["variants"]:
            tv = adt(T, t["name"], (), ()) if not t["fields"] else adt(T, t["name"], tuple(f["name"] for f in t["fields"]), tuple(sym("type") for _ in t["fields"]))
            fs = tuple(f["name"] for f in m["fields"])
            mv = adt(M, m["name"], fs, tuple(sym("m") for _ in fs))
            vals = {"type_": tv, fname: mv}
            yield t["name"], m["name"], adt(A, ctx.P.adts[A]["variants"][0]["name"], names, tuple(vals.get(n, sym(n)) for n in names))


def kind_of(t, m):
    if t == "JsonWebKey2020" and m == "JWK":
        return "jwk"
    if (t, m) in ENCODED:
        return ENCODED[(t, m)]
    return None


def jwk_guards(m):
    """facts under which a JWK is of each kind, and the facts of being none"""
    names = TM.ENUMS.get(JV) or ("Null", "Bool", "Number", "String", "Array", "Object")
    got = []
    for k in ("kty", "crv"):
        x = mk("app", "map_get", (), (field(m, "0", "Object"), S(k)))
        v = field(x, "0", "Some")
        got.append(([(isv(m, "Object", names), True), (isv(x, "Some", OPT), True), (isv(v, "String", names), True)], field(v, "0", "String")))
    base = frozenset(got[0][0] + got[1][0])
    kty, crv = got[0][1], got[1][1]
    yes = {alg: base | {(eq(kty, S(a)), True), (eq(crv, S(b)), True)} for a, b, alg in JWKS}
    no = []
    fs = got[0][0] + got[1][0][1:]
    for n in range(len(fs)):
        no.append(frozenset(fs[:n] + [(fs[n][0], False)]))
    none = base
    for a in ("EC", "OKP"):
        e = base | {(eq(kty, S(a)), True)}
        for k, c, _ in JWKS:
            if k == a:
                e |= {(eq(crv, S(c)), False)}
        no.append(e)
    no.append(base | {(eq(kty, S("EC")), False), (eq(kty, S("OKP")), False)})
    return yes, no


def jwk_reference(ctx, m, v):
    """what a key given as a JWK is taken for"""
    yes, no = jwk_guards(m)
    cs = []
    pair = ctx.adt("KnownKeyPair")
    txt = text_of(m, v)
    for alg, g in yes.items():
        J = imported(txt, PAIR[alg], v)
        okk = [is_ok(txt)] if txt.op == "app" and txt.a[0].endswith("ser::to_string") else []
        cs.append((g | frozenset(okk + [is_ok(J)]), ok(adt(pair, alg, ("0",), (okof(J),)))))
        cs.append((g | frozenset(okk + [is_err(J)]), err(error_of("Malformed"))))
    for g in no:
        cs.append((g, err(error_of("Unsupported"))))
    return alt(cs)


def text_of(m, v):
    for t in apps("to_string", v):
        if t.a[2][0] is m:
            return t
    return mk("app", "serde_json::ser::to_string", (), (m,))


def imported(txt, pair, v):
    """the import of that JWK text as that type of key, as it occurs in v"""
    src = okof(txt) if txt.a[0].endswith("ser::to_string") else txt
    for t in apps("from_jwk", v):
        if t.a[2][0] is src and any(pair in a for a in t.a[1]):
            return t
    return mk("app", "askar_crypto::jwk::FromJwk::from_jwk", ("?" + pair,), (src,))


def plain(x):
    """a JSON string, or the text of it"""
    while x.op == "adt" and x.a[1] == "String" and x.a[2] == ("0",):
        x = x.a[3][0]
    return x


def bytes_of(x):
    """the bytes an unpadded base64url text stands for"""
    x = plain(x)
    if x.op == "app" and x.a[0].endswith("encode_config") and urlsafe(x.a[2][1]):
        return x.a[2][0]
    return None


def implied(g, a, b=True):
    """does the guard g entail that a is b"""
    e = ext(g, frozenset([(a, not b)])) if a.op not in ("c",) else (None if a.a[1] == b else g)
    if e is None:
        return True
    return not sat(e)


def encoded_bytes(v, mat):
    """the decoded bytes of the material, with the facts needed"""
    m = sym("m")
    for t in apps("into_vec", v):
        d = t.a[2][0]
        if d.op == "app" and d.a[0].endswith("decode"):
            if mat == "Base58" and d.a[2][0] is m:
                return t, []
            if mat == "Multibase":
                s = d.a[2][0]
                if s is slice_from(m, 1):
                    return t, [("starts with z", None)]
                if s.op == "f" and s.a[0].op == "app" and s.a[0].a[0].endswith("strip_prefix") and s.a[0].a[2][0] is m and s.a[0].a[2][1].op == "c" and s.a[0].a[2][1].a[1] == "z":
                    return t, [("prefix z", isv(s.a[0], "Some", OPT))]
    return None, []


def slice_from(m, n):
    import models
    return models.slice2(m, C("int", n), C("int", -1))


def key_bytes(B, v):
    """the bytes after the multicodec prefix, as they occur in v"""
    for t in apps("strip_prefix", v):
        if t.a[2][0] is B:
            return t
    return None


def codec_facts(B, g):
    """values the guard fixes the codec to"""
    out = []
    for G in sat_cases(g):
        n = None
        for a, b in G:
            if b and a.op == "eq":
                for x, y in (a.a, a.a[::-1]):
                    if y.op == "c" and y.a[0] == "int" and x.op == "f" and x.a[0].op == "app" and "varint" in x.a[0].a[0] and x.a[0].a[2][0] is B:
                        n = y.a[1]
        out.append(n)
    return set(out)


def key_material(ctx, rep):
    for ty in NAMES:
        k = the_fn(ctx, rep, "key material read", "as_key_pair", ty, "AsKnownKeyPair")
        a = the_fn(ctx, rep, "key material read", "key_alg", ty, "AsKnownKeyPair")
        if k is None or a is None:
            continue
        pp = NAMES[ty][3]
        for t, m, s in materials(ctx, ty):
            w = "%s, %s as %s" % (where(ctx, k), t, m)
            r = run(ctx, k, s)
            v = r.value
            ra = run(ctx, a, s)
            alg(ctx, rep, where(ctx, a) + ", %s as %s" % (t, m), kind_of(t, m), ra)
            kind = kind_of(t, m)
            if kind is None:
                rep.same("unsupported key material refused", w, v, err(error_of("Unsupported")), notes=r.notes)
            elif kind == "jwk":
                rep.same("key material read", w, v, jwk_reference(ctx, sym("m"), v), notes=r.notes)
            else:
                encoded(ctx, rep, w, kind, m, pp, r)
            no_panics(rep, r, w, "no panic on key material")
            varint_bounded(ctx, rep, w, r)
            typed(ctx, rep, ty, t, m, s, v)


def alg(ctx, rep, w, kind, r):
    p = ctx.adt("KnownKeyAlg")
    if kind == "jwk":
        yes, no = jwk_guards(sym("m"))
        want = alt([(g, adt(p, x, (), ())) for x, g in yes.items()] + [(g, adt(p, "Unsupported", (), ())) for g in no])
    else:
        want = adt(p, kind or "Unsupported", (), ())
    rep.same("key algorithm told", w, r.value, want, notes=r.notes)


def varint_bounded(ctx, rep, w, r):
    """the varint reader shifts past 32 bits when five bytes in a row continue: it may only run where one of them does not"""
    for e in r.events:
        if e.kind == "call" and e.name.endswith("read_unsigned_varint_32") and e.F is not None:
            x = e.args[0]
            good = implied_all(e.F, lambda F: any(in_fact(a) and (a.a[1] == "Some") == b and short(a.a[0].a[0], x) for a, b in F))
            told = [r for a, b in e.F if in_fact(a) and (a.a[1] == "Some") == b for r in [short(a.a[0].a[0], x)] if r is not None]
            if not good and told and x.op not in ("slice",) and not (x.op == "app" and x.a[0].split("::")[-1] in ("take", "slice")):
                rep.bad("no panic on key material", w + ", codec prefix", "five continuing bytes overflow the reader, which is only kept from some others")
                continue
            cut = x.op in ("slice",) or (x.op == "app" and x.a[0].split("::")[-1] in ("take", "slice"))
            byte = any(contains(a, x) and (contains_app(a, "bitand") or a.op in ("lt",) or in_fact(a)) for a, b in e.F)
            if good:
                rep.ok("no panic on key material", w + ", codec prefix")
            elif cut or byte:
                rep.unk("no panic on key material", w + ", codec prefix", "whether five continuing bytes can reach the reader")
            else:
                rep.bad("no panic on key material", w + ", codec prefix", "five continuing bytes overflow the reader")


def implied_all(F, f):
    if f(F):
        return True
    cs = sat_cases(F)
    return all(f(G) for G in cs)


def short(e, x):
    """is it an element among the first five bytes of x whose high bit is clear (None if it is not followed)"""
    if e.op != "elem":
        return None
    src = e.a[0]
    if not (src.op == "app" and src.a[0].split("::")[-1] == "take" and src.a[2][0] is x and src.a[2][1].op == "c"):
        return None
    if not (isinstance(e.a[1], tuple) and len(e.a[1]) == 3):
        return None
    got = bytes_with([f for f in e.a[1][2] if not in_fact(f[0])], e.a[1][1])
    return None if got is None else max(got, default=0) < 128 and src.a[2][1].a[1] <= 5


def bytes_with(G, x):
    """the values of the byte x for which the facts hold"""
    out = set()
    for n in range(256):
        good = True
        for a, b in G:
            v = byte_term(a, x, n)
            if v is None:
                return None
            good = good and bool(v) == b
        if good:
            out.add(n)
    return out


def byte_term(t, x, n):
    """a term over the byte x for its value n"""
    if t is x:
        return n
    if t.op == "c":
        return t.a[1] if isinstance(t.a[1], (int, bool)) else None
    if t.op == "app" and len(t.a[2]) == 1 and last_name(t) in ("copied", "cloned", "u32", "into", "from", "cast"):
        return byte_term(t.a[2][0], x, n)
    ps = t.a if t.op in ("eq", "lt", "le", "not") else t.a[2] if t.op == "app" and len(t.a[2]) == 2 else None
    if ps is None:
        return None
    vs = [byte_term(p, x, n) for p in ps]
    if None in vs:
        return None
    op = t.op if t.op != "app" else last_name(t).lower()
    f = {"eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "not": lambda a: not a, "bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b,
         "bitxor": lambda a, b: a ^ b, "shr": lambda a, b: a >> b, "shl": lambda a, b: (a << b) & 255, "div": lambda a, b: a // b if b else None,
         "rem": lambda a, b: a % b if b else None, "sub": lambda a, b: a - b if a >= b else None, "add": lambda a, b: a + b if a + b < 256 else None}.get(op)
    return f(*vs) if f else None


def last_name(t):
    return t.a[0].split("::")[-1]


BOOL_OPS = ("eq", "is", "not", "empty", "lt", "or", "c", "app")


def encoded(ctx, rep, w, kind, mat, pp, r):
    rule = "key material read"
    v = r.value
    D, need = encoded_bytes(v, mat)
    if D is None:
        rep.judge(rule, w, False, "the text is not base58-decoded%s" % (" after its leading z" if mat == "Multibase" else ""), v) if not apps("into_vec", v) else \
            rep.bad(rule, w, "something other than the text %sis base58-decoded" % ("after its leading z " if mat == "Multibase" else ""))
        return
    B = okof(D)
    K, P = B, None
    if mat == "Multibase":
        P = key_bytes(B, v)
        K = field(P, "0", "Some") if P is not None else None
    seen = 0
    refs = []
    for g, x in cases(v):
        if not (x.op == "adt" and x.a[1] == "Ok"):
            continue
        y = x.a[3][0]
        seen += 1
        if not (y.op == "adt" and y.a[1] in PAIR):
            rep.unk(rule, w, "key not followed: " + show(y, 100))
            continue
        rep.judge(rule, w + ", kind of key", y.a[1] == kind, "a %s key made" % y.a[1])
        rep.judge(rule, w + ", base58", implied(g, *is_ok(D)), "a text that is not base58 accepted", v)
        if mat == "Multibase":
            z = mk("app", "core::str::<impl str>::starts_with", (), (sym("m"), S("z")))
            zs = [t for t in apps("starts_with", v, *[a for a, b in g]) if t.a[2][0] is sym("m") and t.a[2][1].op == "c" and t.a[2][1].a[1] == "z"]
            zok = any(implied(g, t) for t in zs) or any(c is not None and implied(g, c) for _, c in need) or first_is_z(g)
            rep.judge(rule, w + ", leading z", zok, "accepted without the leading z", v)
            if K is None:
                n = prefix_cut(y, B)
                if n is None:
                    rep.unk(rule, w, "the codec prefix is not stripped in a way that is followed")
                    continue
                rep.judge(rule, w + ", prefix", n == 2, "%s bytes of prefix removed" % n, y)
                K = slice_from_(B, n)
            elif P is not None:
                rep.judge(rule, w + ", prefix", implied(g, isv(P, "Some", OPT)), "prefix not checked", v)
            cs = codec_facts(B, g)
            pre = P.a[2][1] if P is not None else None
            c2 = const_prefix(pre) if pre is not None else None
            if cs <= {None} and c2 is not None:
                cs = {c2}
            if None in cs and not cs - {None}:
                rep.judge(rule, w + ", codec", False, "key accepted whatever its codec", v) if not apps("read_unsigned_varint_32", v) or True else None
            else:
                rep.judge(rule, w + ", codec", cs == {CODEC[(kind, pp)]}, "accepted codec " + ", ".join(hex(c) if c is not None else "any" for c in cs))
        J = y.a[3][0]
        src = J.a[0] if J.op == "f" else J
        if not (src.op == "app" and src.a[0].split("::")[-1] in ("from_jwk", "from_secret_bytes", "from_public_bytes", "from_keypair_bytes")):
            rep.unk(rule, w, "key made by " + show(src, 100))
            continue
        how = src.a[0].split("::")[-1]
        rep.judge(rule, w + ", type of key", any(PAIR[kind] in a for a in src.a[1]), "made as " + ", ".join(src.a[1]))
        if how == "from_jwk":
            js = src.a[2][0]
            js = js.a[0].a[2][0] if js.op == "f" and js.a[0].op == "app" else (js.a[2][0] if js.op == "app" else js)
            mp = js.a[3][0] if js.op == "adt" and js.a[1] == "Object" else js
            if mp.op != "map":
                rep.unk(rule, w, "JWK not followed: " + show(mp, 100))
                continue
            got = {q.a[1]: plain(x_) for q, x_ in mp.a[0] if q.op == "c"}
            rep.judge(rule, w + ", kty", got.get("kty") is S("OKP"), "is " + show(got.get("kty") or NONE, 60), got.get("kty") or NONE)
            rep.judge(rule, w + ", crv", got.get("crv") is S(kind), "is " + show(got.get("crv") or NONE, 60), got.get("crv") or NONE)
            want = {"x": K} if pp == "public" else None
            if pp == "private":
                want = {"x": slice_from_(K, 32), "d": slice_to_(K, 32)} if kind == "Ed25519" else {"x": None, "d": K}
            for n in ("x", "d"):
                g_ = got.get(n)
                if n not in want:
                    rep.judge(rule, w + ", " + n, g_ is None, "a private part in a public key")
                    continue
                if g_ is None:
                    rep.bad(rule, w + ", " + n, "missing from the key")
                    continue
                b = bytes_of(g_)
                if b is None:
                    rep.judge(rule, w + ", " + n, False, "not the unpadded base64url of the bytes: " + show(g_, 100), g_)
                    continue
                if n == "x" and want["x"] is None:
                    good = b.op == "app" and b.a[0] == "public_bytes" and b.a[2][0].op == "f" and b.a[2][0].a[0].op == "app" and \
                        b.a[2][0].a[0].a[0].endswith("from_secret_bytes") and b.a[2][0].a[0].a[2][0] is K
                    rep.judge(rule, w + ", x", good, "not the public part of the key", b)
                else:
                    rep.same(rule, w + ", " + n, b, want[n], g)
        else:
            rep.judge(rule, w + ", bytes", src.a[2][0] is K, "made from other bytes", src)
        refs.append((g, src))
    if not seen:
        rep.judge(rule, w, False, "never accepted", v)
    # nothing well-formed is refused
    F = [is_ok(D)]
    for g, src in refs:
        F2 = list(F) + [is_ok(src)]
        if mat == "Multibase" and K is not None:
            F2 += [(t, True) for t in apps("starts_with", v, *[a for a, b in g]) if t.a[2][0] is sym("m") and t.a[2][1].op == "c" and t.a[2][1].a[1] == "z"]
            F2 += [(c, True) for _, c in need if c is not None]
            if P is not None:
                F2.append((isv(P, "Some", OPT), True))
            for t in walk_all(v):
                if t.op == "app" and "varint" in t.a[0]:
                    F2.append(is_ok(t))
                    if t.a[2][0] is B:
                        F2.append((eq(okof(t), C("int", CODEC[(kind, pp)])), True))
        n = 64 if (kind, pp) == ("Ed25519", "private") else 32
        F2.append((eq(length(K), C("int", n)), True))
        for t in walk_all(v):
            if t.op == "app" and t.a[0].split("::")[-1] in ("to_string", "from_secret_bytes"):
                F2.append(is_ok(t))
        F2 = ext(EMPTY, frozenset(F2))
        if F2 is None:
            rep.unk("sound key material accepted", w, "the conditions clash")
            continue
        refused = None
        for h, x in cases(simp(v, F2)):
            if x.op == "adt" and x.a[1] == "Err":
                e = ext(F2, h)
                if e is None:
                    continue
                for G in sat_cases(e):
                    told = [overlong(a, b, B, "Secret" in w) for a, b in G]
                    if True in told:
                        continue
                    if "sound" in told:
                        rep.bad("sound key material accepted", w + ", prefix", "refused by the bytes of a sound prefix, where " + showf(G - F2))
                        continue
                    odd = [a for a, b in G if (a, b) not in F2 and contains_app(a, "bitand") or in_fact(a)]
                    if odd:
                        rep.unk("sound key material accepted", w, "a refusal depends on single bytes")
                        continue
                    refused = refused or (G, x)
        rep.judge("sound key material accepted", w, refused is None, "refused, where %s" % (showf(refused[0] - F2) if refused else ""), *( [a for a, _ in refused[0]] if refused else []))
    # refusals
    for g, x in cases(v):
        if x.op == "adt" and x.a[1] == "Err":
            for h, kd in cases(field(field(x, "0", "Err"), "kind")):
                e = ext(g, h)
                if e is None or not sat(e):
                    continue
                if kd.op == "adt" and kd.a[1] not in REJECT + ("InvalidState", "IoError"):
                    rep.bad("refused as malformed", w, "error of kind " + kd.a[1])
                elif kd.op == "adt" and kd.a[1] == "InvalidState":
                    # only where the library itself failed
                    z = [G for G in sat_cases(e) if not any(internal(a, b) for a, b in G)]
                    rep.judge("refused as malformed", w, not z, "InvalidState for unsound material", *([a for a, _ in z[0]] if z else []))
                else:
                    rep.judge("refused as malformed", w, kd.op == "adt", "kind unknown", kd)


def internal(a, b):
    if a.op == "is" and a.a[0].op == "app" and not ((a.a[1] == "Ok") == b):
        n = a.a[0].a[0].split("::")[-1]
        return n in ("to_string", "write_unsigned_varint_32", "read_unsigned_varint_32")
    return a.op == "is" and a.a[1] == "BufferTooSmall" and b


def contains_app(a, name):
    return any(t.op == "app" and t.a[0].endswith(name) for t in walk_all(a))


def overlong(a, b, B, secret):
    """no byte among the first five ends the varint (or "sound": the bytes of a prefix in use are refused by this)"""
    if not in_fact(a) or (a.a[1] == "Some") == b:
        return False
    e = a.a[0].a[0]
    if e.op != "elem" or not (isinstance(e.a[1], tuple) and len(e.a[1]) == 3):
        return False
    src, (_, x, G) = e.a[0], e.a[1]
    if not (src.op == "app" and src.a[0].split("::")[-1] == "take" and src.a[2][0] is B and src.a[2][1].op == "c"):
        return False
    n = src.a[2][1].a[1]
    got = bytes_with([f for f in G if not in_fact(f[0])], x)
    if got is None:
        return False
    heads, second = ({0x82, 0x80}, 0x26) if secret else ({0xec, 0xed}, 0x01)
    if n >= 5 and got >= set(range(128)):
        return True
    if n > 0 and not got & heads and (n == 1 or second not in got) and len(got) < 256:
        return "sound"
    return False


def showf(F):
    return ", ".join(("" if b else "not ") + show(a, 80) for a, b in F)[:300]


def first_is_z(g):
    m = sym("m")
    for a, b in g:
        if b and a.op == "eq":
            for x, y in (a.a, a.a[::-1]):
                if y.op == "c" and y.a[1] in ("z", ord("z")) and contains(x, m):
                    return True
        if b and a.op == "is" and a.a[1] == "Some" and contains_app(a, "strip_prefix") and contains(a, m):
            return True
    return False


def slice_from_(b, n):
    import models
    return models.slice2(b, C("int", n), C("int", -1))


def slice_to_(b, n):
    import models
    return models.slice2(b, C("int", 0), C("int", n))


def const_prefix(pre):
    """the number a constant varint prefix stands for"""
    if pre.op != "list" or not all(s.op == "one" and s.a[0].op == "c" for s in pre.a):
        return None
    n = 0
    for k, s in enumerate(pre.a):
        n |= (int(s.a[0].a[1]) & 127) << (7 * k)
    return n


def prefix_cut(y, B):
    for t in walk_all(y):
        if t.op in ("slice", "app") and "slice" in (t.op, t.op == "app" and t.a[0]):
            a = t.a if t.op == "slice" else t.a[2]
            if a and a[0] is B and a[1].op == "c":
                return a[1].a[1]
    return None


def typed(ctx, rep, ty, t, m, s, v):
    """the accessor for one kind of key gives that key and no other"""
    for name, variant in (("as_ed25519", "Ed25519"), ("as_x25519", "X25519"), ("as_p256", "P256"), ("as_k256", "K256")):
        for k in ctx.find_fn(name, ty, "AsKnownKeyPair"):
            r = run(ctx, k, s)
            cs = []
            for g, x in cases(v):
                for h, y in (cases(x.a[3][0]) if x.op == "adt" else ()):
                    e = ext(g, h)
                    if e is None:
                        continue
                    if x.a[1] == "Ok" and y.op == "adt" and y.a[1] == variant:
                        cs.append((e, ok(y.a[3][0])))
                    elif x.a[1] == "Ok" and y.op == "adt":
                        cs.append((e, err(ANY)))
                    elif x.a[1] == "Err":
                        cs.append((e, err(ANY)))
            if cs:
                rep.same("key of the kind asked for", where(ctx, k) + ", %s %s as %s" % (ty, t, m), r.value, alt(cs), notes=r.notes)


def did_texts(ctx, rep):
    """what is a DID and how a DID URL is taken apart"""
    x = sym("text")
    k = the_fn(ctx, rep, "DID URL split", "did_or_url", quiet=True)
    if k is None:
        rep.unk("DID URL split", "did_or_url", "not found")
    else:
        r = run(ctx, k, x)
        sp = [t for t in apps("split_once", r.value) if t.a[2][0] is x]
        if not sp:
            other = [t for t in apps("rsplit_once", r.value) + apps("rfind", r.value) if t.a[2][0] is x]
            rep.unk("DID URL split", where(ctx, k), "no split at the number sign") if not other else rep.bad("DID URL split", where(ctx, k), "split at the last number sign")
        else:
            sp = sp[0]
            rep.judge("DID URL split", where(ctx, k), sp.a[2][1].op == "c" and sp.a[2][1].a[1] == "#", "split elsewhere", sp)
            want = alt([(frozenset([(isv(sp, "Some", OPT), True)]), mk_tuple(r.value, field(field(sp, "0", "Some"), "0"), some(x))),
                        (frozenset([(isv(sp, "Some", OPT), False)]), mk_tuple(r.value, x, NONE))])
            rep.same("DID URL split", where(ctx, k), r.value, want, notes=r.notes)
    k = the_fn(ctx, rep, "DID recognised", "is_did", quiet=True)
    if k is None:
        rep.unk("DID recognised", "is_did", "not found")
    else:
        did_recognised(rep, where(ctx, k), run(ctx, k, x), x)
        no_panics(rep, run(ctx, k, x), where(ctx, k))


def did_recognised(rep, w, r, x):
    """true for exactly the texts of three or more parts between colons, of which the first is 'did'"""
    from prov import Canon, split, starts, other_cuts, part_count
    rule = "DID recognised"
    L = mk("app", "split", (), (x, S(":")))
    first = eq(index(L, C("int", 0)), S("did"))
    n = 0
    for g, v in cases(r.value):
        for b in (True, False):
            F = ext(g, frozenset([(v, b)])) if v.op != "c" else g if v.a[1] == b else None
            for F2 in starts(F, x, S(":")) if F is not None else ():
                for c in split(F2):
                    n += 1
                    t = other_cuts([a for a, _ in c.G], x)
                    if t is not None:
                        rep.unk(rule, w, "the text is cut in a way that is not followed: " + show(t, 100))
                        continue
                    lo, hi = part_count(c, L)
                    if b:
                        rep.judge(rule, w, lo >= 3 and c.holds(first), "true of other texts", *[a for a, _ in c.G])
                    else:
                        rep.judge(rule, w, hi < 3 or c.holds(first, False), "false of a DID", *[a for a, _ in c.G])
    if not n:
        rep.unk(rule, w, "no outcome")


def mk_tuple(v, *xs):
    for g, y in cases(v):
        if y.op == "adt" and len(y.a[2]) == len(xs):
            return adt(y.a[0], y.a[1], y.a[2], xs)
        if y.op == "tuple":
            return mk("tuple", *xs)
    return ANY
