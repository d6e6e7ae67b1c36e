"""X04: private key material goes into the key functions and nowhere else.

Every function of the crate is interpreted on its own; what is told in an error, asked of a resolver or formatted into text must not
be made of private material: a member of a secret that holds the material, a private key made of it, or a key agreed or drawn here."""
import re

from common import *
from panics import units, is_leaf, generated
from prov import last

KEYTYPE = re.compile(r"^[\w:]*(KeyPair|secrets::Secret|SecretMaterial|AesKey<[^<>]*>|Chacha20Key<[^<>]*>|SecretBytes)$")
MAKERS = {"from_secret_bytes", "from_key_derivation", "generate", "derive_key", "unwrap_key", "from_jwk", "from_jwk_value", "as_key_pair",
          "as_ed25519", "as_x25519", "as_p256", "as_k256", "from_keypair_bytes", "to_jwk_secret", "to_secret_bytes", "to_keypair_bytes"}
HARMLESS = {"len", "key_alg", "to_jwk_public", "to_jwk_public_value", "to_public_bytes", "sign", "verify_signature", "aead_params", "secret_bytes_length", "kind of",
            "classify", "encrypt", "wrap_key", "encrypt_in_place", "algorithm"}
# what gives a private key away as bytes or text; wrapping a content key is the one use there is for it
EXPORT = re.compile(r"(^|::)(to_jwk_secret|to_secret_bytes|to_keypair_bytes|to_jwk_value_secret)$")
OPEN = {"crv", "kty", "alg", "kid", "use", "x", "y", "id", "type_"}
TELLS = re.compile(r"^anyhow::|Display|fmt::format$")
ASKS = {"resolve", "get_secret", "find_secrets"}


def holders(ctx):
    """members of the crate's types that hold private material: name -> True"""
    out = set()
    for p, a in ctx.P.adts.items():
        if not a.get("local"):
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                t = ctx.P.tstr(f["ty"]) if isinstance(f["ty"], int) else str(f["ty"])
                if f["name"].isdigit():
                    continue
                if t.endswith("SecretMaterial"):
                    out.add(f["name"])
                if p.endswith("::SecretMaterial"):
                    out.add(f["name"])
    return out


def secret_part(t, roots, names, seen):
    """a part of t that is private material, or None"""
    if t in seen:
        return seen[t]
    seen[t] = None
    r = None
    if t in roots:
        r = t
    elif t.op == "f":
        path, b = [], t
        while b.op == "f":
            path.append((b.a[2], b.a[1]))
            b = b.a[0]
        path.reverse()
        if any(v == "Err" for _, v in path):
            r = None      # what a library says about its input
        elif path[-1][0] in OPEN:
            r = None
        elif any(n in names for n, _ in path):
            r = t
        elif b in roots:
            r = None      # another member: an id, a type
        elif b.op == "app" and last(b.a[0]).replace("cut:", "") in ("get_secret",):
            rest = [n for n, v in path if v not in ("Ok", "Some")]
            r = t if not rest and any(v == "Ok" for _, v in path) else None
        elif b.op == "app" and last(b.a[0]).replace("cut:", "") in MAKERS:
            r = None if any(v == "Err" for _, v in path) else t
        elif any(v == "Err" for _, v in path):
            r = None
        elif b.op == "app" and b.a[0].startswith("cut:"):
            r = None
        else:
            r = secret_part(b, roots, names, seen)
    elif t.op == "app":
        n = last(t.a[0]).replace("cut:", "")
        if any(isinstance(x, T) and x.op == "c" and x.a[1] in OPEN for x in t.a[2]):
            r = None      # a public member of a JWK
        elif n in MAKERS or n in HARMLESS or t.a[0].startswith(("cut:", "askar_crypto::")):
            r = None
        else:
            r = first(t.a[2], roots, names, seen)
    elif t.op == "alt":
        r = first([v for _, v in t.a[0]], roots, names, seen)
    elif t.op == "adt":
        r = first(t.a[3], roots, names, seen)
    elif t.op in ("len", "is", "eq", "lt", "empty", "not", "or", "and", "discr", "c", "sym"):
        r = None
    else:
        r = first(t.a, roots, names, seen)
    seen[t] = r
    return r


def first(xs, roots, names, seen):
    for x in xs:
        if isinstance(x, (tuple, list)):
            r = first(x, roots, names, seen)
        elif isinstance(x, T):
            r = secret_part(x, roots, names, seen)
        else:
            r = None
        if r is not None:
            return r
    return None


def disclosure(ctx, rep):
    us = units(ctx)
    names = holders(ctx)
    if not names:
        rep.unk("secrets recognised", "crate", "no type holds private material")
    cut = frozenset(k for k in us if not is_leaf(ctx, k))
    for k in us:
        i = ctx.P.insts[k]
        b = i["body"]
        w = "fn " + i["path"]
        args = {}
        for n in range(b["argc"]):
            t = re.sub(r"^(&('\w+ )?(mut )?)+", "", ctx.P.tstr(b["locals"][n + 1]))
            if KEYTYPE.search(t):
                args[n + 1] = sym("secret %d" % (n + 1))
        roots = set(args.values())
        r = ctx.run(k, args or None, cuts=cut - {k})
        told, asked = None, None
        for e in r.events:
            if e.kind not in ("call", "cut"):
                continue
            if e.kind == "call" and TELLS.search(e.name):
                x = first(e.args, roots, names, {})
                if x is not None:
                    told = "%s is told in an error or text (%s)" % (show(x, 200), last(e.name))
            elif e.kind == "call" and last(e.name) in ASKS and len(e.args) > 1:
                x = first(e.args[1:], roots, names, {})
                if x is not None:
                    asked = "%s is asked of a resolver (%s)" % (show(x, 200), last(e.name))
        for rule, bad in (("not told in errors", told), ("not told to resolvers", asked)):
            if bad:
                rep.bad(rule, w, bad)
            else:
                rep.ok(rule, w)
    import effects
    for j, o in enumerate(ctx.P.insts):
        if not o or not o.get("local") or not o.get("body"):
            continue
        fns = []
        effects.parts(o["body"], fns, [])
        out = [f["path"] for f in fns if EXPORT.search(f["path"])]
        if out:
            rep.bad("private keys stay keys", effects.owner(ctx, j), "it calls %s" % out[0])
        else:
            rep.ok("private keys stay keys", effects.owner(ctx, j))
