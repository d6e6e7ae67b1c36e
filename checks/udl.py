"""The interface description of the uniffi binding against the core types it describes."""
import re
from common import *
import wire
import os
from tsdecl import split_top, balanced, functions, lex

UDL = "/repo/uniffi/src/didcomm.udl"
PRIMS = {"string": "alloc::string::String", "DOMString": "alloc::string::String", "boolean": "bool", "bytes": "alloc::vec::Vec<u8>",
         "float": "f32", "double": "f64"}
PRIMS.update((x, x) for x in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"))


class Bad(Exception):
    pass


def blocks():
    """(kind, name, body) of the description; kind is "dictionary", "enum", "data" (an enum with data), "interface", "callback" """
    text = open(UDL, encoding="utf8").read()
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"((?:\[[^\]]*\]\s*)*)\b(callback\s+interface|interface|dictionary|enum)\s+(\w+)\s*\{(.*?)\}\s*;", text, re.S):
        k = m.group(2).split()[0]
        if k == "interface" and re.search(r"\bEnum\b", m.group(1)):
            k = "data"
        yield k, m.group(3), m.group(4)


def statements(body):
    return [re.sub(r"^(\[[^\]]*\]\s*)+", "", x.strip()) for x in body.split(";") if x.strip()]


def customs():
    text = re.sub(r"//[^\n]*", "", open(UDL, encoding="utf8").read())
    return set(re.findall(r"\[\s*Custom[^\]]*\]\s*typedef\s+\w+\s+(\w+)\s*;", text))


def squeeze(s):
    return re.sub(r"\s+", "", s)


class Types(object):
    def __init__(self, ctx):
        self.ctx, self.custom = ctx, customs()
        self.by = {}
        for p in ctx.P.adts:
            if p.startswith("didcomm::") and "::tests::" not in p:
                self.by.setdefault(p.split("::")[-1], []).append(p)

    def core(self, n):
        c = self.by.get(n, [])
        if len(c) > 1:
            raise Bad("several types are called " + n)
        return c[0] if c else None

    def fits(self, t, ty):
        """whether a described type is a Rust type"""
        t, ty = squeeze(t), re.sub(r"^&('\w+ )?", "", ty)
        head, _, rest = ty.partition("<")
        args = split_top(rest[:-1]) if rest else []
        if t.endswith("?"):
            return head == "core::option::Option" and self.fits(t[:-1], args[0])
        m = re.match(r"^(sequence|record)<(.*)>$", t)
        if m:
            inner = split_top(m.group(2))
            if m.group(1) == "sequence":
                return head == "alloc::vec::Vec" and self.fits(inner[0], args[0])
            return head.endswith("::HashMap") and self.fits(inner[0], args[0]) and self.fits(inner[1], args[1])
        if t in PRIMS:
            return ty == PRIMS[t]
        if t in self.custom:
            if t == "JsonValue":
                return ty == "serde_json::value::Value"
            raise Bad("custom type " + t)
        return head.split("::")[-1] == t


def interface(ctx, rep):
    try:
        bs = list(blocks())
        T = Types(ctx)
    except OSError:
        bs = []
    if not bs:
        rep.unk("data as described", UDL, "the interface description cannot be read")
        return
    found = 0
    for k, n, body in bs:
        if k not in ("dictionary", "enum", "data"):
            continue
        w = "uniffi/src/didcomm.udl, %s" % n
        try:
            p = T.core(n)
        except Bad as e:
            rep.unk("data as described", w, "not followed: %s" % e)
            continue
        if p is None:
            continue
        found += 1
        a = ctx.P.adts[p]
        if (a["kind"] == "enum") != (k != "dictionary"):
            rep.bad("data as described", w, "a %s is described, %s is none" % ("record" if k == "dictionary" else "choice", p))
            continue
        try:
            if k == "dictionary":
                members(rep, T, w, p, a["variants"][0]["fields"], fields(body))
            elif k == "enum":
                names(rep, w, p, a, [x.strip().strip('"') for x in re.split(r"[,;]", body) if x.strip()])
                for v in a["variants"]:
                    if v["fields"]:
                        rep.bad("data as described", "%s, %s" % (w, v["name"]), "it carries data, none is described (%s)" % p)
            else:
                vs = []
                for s in statements(body):
                    m = re.match(r"^(\w+)\s*\((.*)\)$", s, re.S)
                    if not m:
                        raise Bad(s)
                    vs.append((m.group(1), [field(x) for x in split_top(m.group(2))]))
                names(rep, w, p, a, [v for v, _ in vs])
                for v, fs in vs:
                    for x in a["variants"]:
                        if x["name"] == v:
                            members(rep, T, "%s, %s" % (w, v), p, x["fields"], fs)
        except Bad as e:
            rep.unk("data as described", w, "not followed: %s" % e)
    if not found:
        rep.unk("data as described", UDL, "no data type of the core crate is described")


def field(s):
    s = re.sub(r"^(\[[^\]]*\]\s*)+", "", s.strip())
    s, _, default = s.partition("=")
    m = re.match(r"^(?:required\s+)?(.*\S)\s+(\w+)\s*$", s, re.S) or re.match(r"^(.*[>?])\s*(\w+)\s*$", s, re.S)
    if not m:
        raise Bad(s)
    return m.group(2), m.group(1)


def fields(body):
    return [field(s) for s in statements(body)]


def members(rep, T, w, p, have, told):
    have = {wire.raw(f["name"]): f["ty"] for f in have}
    ren = {n: n for n in have}
    said = dict(told)
    for n, t in told:
        if n not in ren:
            rep.bad("data as described", "%s, %s" % (w, n), "no member of %s is called so" % p)
        else:
            rep.judge("data as described", "%s, %s" % (w, n), T.fits(t, have[n]), "%s is described for %s" % (squeeze(t), have[n]))
    for n in sorted(have):
        if n not in said:
            rep.bad("data as described", "%s, %s" % (w, n), "it is not described (%s)" % p)


def names(rep, w, p, a, told):
    have = [v["name"] for v in a["variants"]]
    for n in told:
        rep.judge("data as described", "%s, %s" % (w, n), n in have, "%s has no such case" % p)
    for n in have:
        if n not in told:
            rep.bad("data as described", "%s, %s" % (w, n), "the case is not described (%s)" % p)


# ---------------------------------------------------------------- functions

def rust_functions():
    """functions of the binding's public types and traits, by (type, name)"""
    out, known = {}, set()
    for d, _, fs in sorted(os.walk(os.path.dirname(UDL))):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), encoding="utf8").read()
            code, _ = lex(s)
            for m in re.finditer(r"\b(pub\s+trait|impl(?:\s+[\w:]+\s+for)?)\s+(\w+)\s*(?::[^{;]*)?\{", code):
                body = code[m.end():balanced(code, m.end() - 1)]
                trait = m.group(1).split() != ["impl"]
                if trait:
                    body = re.sub(r"(?<!pub )\bfn\b", "pub fn", body)
                src = s[m.end():m.end() + len(body)]
                for g in functions(body, src if not trait else body):
                    known.add(m.group(2))
                    out[(m.group(2), g.name)] = g
    return out, known


def plain(n):
    return n.replace("_", "").lower()


def offered(ctx, rep):
    try:
        bs = list(blocks())
        have, known = rust_functions()
    except OSError:
        rep.unk("function as described", UDL, "the interface description cannot be read")
        return
    for k, n, body in bs:
        if k not in ("interface", "callback"):
            continue
        for st in statements(body):
            m = re.match(r"^(.*?)\b(\w+)\s*\((.*)\)$", st, re.S)
            if not m:
                rep.unk("function as described", "uniffi/src/didcomm.udl, %s" % n, "not followed: %s" % st[:40])
                continue
            f, ps = m.group(2), [x for x in split_top(m.group(3))]
            w = "uniffi/src/didcomm.udl, %s.%s" % (n, f)
            g = have.get((n, "new" if f == "constructor" else f))
            if g is None:
                if n in known:
                    rep.unk("function as described", w, "not found among those of %s" % n)
                continue
            try:
                A = [plain(field(x)[0]) for x in ps]
            except Bad as e:
                rep.unk("function as described", w, "not followed: %s" % e)
                continue
            B = [plain(x) for x, _ in g.params]
            if not rep_ok(rep, w + ", parameters", len(A) == len(B), "%d parameters are described, it takes %d" % (len(A), len(B))):
                continue
            both = [x for x in A if x in B]
            rep_ok(rep, w + ", order", both == [x for x in B if x in A], "the described order is %s, it takes %s" % (", ".join(A), ", ".join(B)))


def rep_ok(rep, w, ok, msg):
    rep.judge("function as described", w, ok, msg)
    return ok
