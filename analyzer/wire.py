"""What serde derives put on the wire: the effective JSON shape of a type,
computed from the helper attributes in the compiled program."""

import re
from core import *


def items(attrs, name="serde"):
    out = []
    for a in attrs:
        if a[0] == name:
            out.extend(a[1])
    return out


def get(attrs, key, name="serde"):
    for i in items(attrs, name):
        if i.get("k") == key:
            if "list" in i:
                return i["list"]
            return i.get("v", True)
    return None


def words(s):
    return re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z0-9]+|[A-Z]+|[0-9]+", s)


def apply_rule(rule, name, variant):
    if variant:
        # serde: variant names are PascalCase
        snake = re.sub(r"(?<!^)([A-Z])", r"_\1", name).lower()
        return {"lowercase": name.lower(), "UPPERCASE": name.upper(), "PascalCase": name, "camelCase": name[:1].lower() + name[1:],
                "snake_case": snake, "SCREAMING_SNAKE_CASE": snake.upper(), "kebab-case": snake.replace("_", "-"),
                "SCREAMING-KEBAB-CASE": snake.upper().replace("_", "-")}[rule]
    pas = "".join(w[:1].upper() + w[1:] for w in name.split("_"))
    return {"lowercase": name, "snake_case": name, "UPPERCASE": name.upper(), "SCREAMING_SNAKE_CASE": name.upper(), "PascalCase": pas,
            "camelCase": pas[:1].lower() + pas[1:], "kebab-case": name.replace("_", "-"), "SCREAMING-KEBAB-CASE": name.upper().replace("_", "-")}[rule]


def both(v):
    """(serialize, deserialize) values of a possibly split attribute"""
    if isinstance(v, list):
        d = {i.get("k"): i.get("v") for i in v}
        return d.get("serialize"), d.get("deserialize")
    return v, v


def names_of(attrs, container, name, variant, key="rename_all"):
    rs, rd = both(get(container, key))
    s = apply_rule(rs, name, variant) if rs else name
    d = apply_rule(rd, name, variant) if rd else name
    r = get(attrs, "rename")
    if r is not None:
        a, b = both(r)
        s, d = s if a is None else a, d if b is None else b
    de = [d]
    for i in items(attrs):
        if i.get("k") == "alias":
            de.append(i.get("v"))
    return s, tuple(sorted(set(de)))


class Field(object):
    pass


def raw(n):
    return n[2:] if n.startswith("r#") else n


def fields(ctx, adt_path, variant=None):
    """serde view of a struct's (or variant's) fields"""
    a = ctx.P.adts[adt_path]
    v = [x for x in a["variants"] if variant is None or x["name"] == variant][0]
    cont = a["attrs"] if variant is None else v["attrs"]
    key = "rename_all"
    if variant is not None and get(v["attrs"], "rename_all") is None:
        cont, key = a["attrs"], "rename_all_fields"
    out = []
    for f in v["fields"]:
        x = Field()
        x.rust = raw(f["name"])
        x.ty = f["ty"]
        at = f["attrs"]
        x.ser, x.de = names_of(at, cont, x.rust, False, key)
        x.flatten = bool(get(at, "flatten"))
        x.skip_ser = bool(get(at, "skip") or get(at, "skip_serializing"))
        x.skip_de = bool(get(at, "skip") or get(at, "skip_deserializing"))
        x.default = get(at, "default")
        if x.default is None:
            x.default = get(a["attrs"], "default") and ("container", get(a["attrs"], "default"))
        x.skip_if = get(at, "skip_serializing_if")
        x.with_ = get(at, "with") or get(at, "serialize_with") or get(at, "deserialize_with") or get(at, "getter")
        x.serialize_with = get(at, "serialize_with") or (get(at, "with") and get(at, "with") + "::serialize")
        x.deserialize_with = get(at, "deserialize_with") or (get(at, "with") and get(at, "with") + "::deserialize")
        x.option = x.ty.startswith("core::option::Option<")
        out.append(x)
    return out


def derives(ctx, adt_path, trait):
    """is the trait implemented by derive (True), by hand (False) or not at all (None)"""
    r = None
    for i in ctx.d["impls"]:
        if re.sub(r"<.*", "", i["self"]) == adt_path and i.get("trait", "") and i["trait"].split("<")[0] == trait:
            if i.get("derived") or i.get("auto"):
                return True
            r = False
    return r


SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"


def fn_named(ctx, adt_path, path):
    """a helper function named in an attribute, looked up from the module of the type"""
    path = path.replace("crate::", "didcomm::").replace(" ", "")
    mod = adt_path.rsplit("::", 1)[0]
    parts = path.split("::")
    c = []
    for p, ks in ctx.by_path.items():
        if p == path or p == mod + "::" + path or p.split("::")[-len(parts):] == parts:
            c.append((p != mod + "::" + path, p, ks[0]))
    c.sort()
    return c[0][2] if c else None


STD_DEFAULT = {"alloc::string::String": S(""), "bool": FALSE, "u64": C("int", 0), "u32": C("int", 0), "usize": C("int", 0)}


def default_value(ctx, adt_path, f):
    """the value a missing member reads as (None: reading fails)"""
    if f.default is None or f.default is False:
        return NONE if f.option and not f.deserialize_with else None
    if isinstance(f.default, tuple):
        return mk("app", "container-default", (), (S(f.rust),))
    if f.default is True:
        return type_default(ctx, f.ty)
    k = fn_named(ctx, adt_path, f.default)
    if k is not None:
        return ctx.run(k).value
    if f.default.endswith("Default::default") or f.default.endswith("::default") or f.default.endswith("::new"):
        return type_default(ctx, f.ty)
    return mk("app", "core::unresolved default " + f.default, (), ())


def type_default(ctx, ty):
    if ty.startswith("core::option::Option<"):
        return NONE
    if ty.startswith("alloc::vec::Vec<"):
        return lst()
    if ty.startswith("std::collections"):
        return mk("map", ())
    if ty in STD_DEFAULT:
        return STD_DEFAULT[ty]
    for k in ctx.find_fn("default", ty.split("::")[-1].split("<")[0], "Default"):
        return ctx.run(k).value
    for i in ctx.d["impls"]:
        if i["self"] == ty and i.get("trait") == "core::default::Default":
            for k, x in enumerate(ctx.P.insts):
                if x["path"] in i["items"] and x.get("body"):
                    return ctx.run(k).value
    return mk("app", "core::default " + ty, (), ())


def omitted_when(ctx, adt_path, f):
    """boolean term over sym('v'): the member is left out"""
    v = sym("v")
    if f.skip_ser:
        return TRUE
    if f.skip_if is None:
        return FALSE
    p = f.skip_if.replace(" ", "").split("::")
    if p[-2:] == ["Option", "is_none"] or (p[-1] == "is_none" and len(p) == 1):
        return isv(v, "None", ONCE)
    if p[-2:] == ["Option", "is_some"]:
        return isv(v, "Some", ONCE)
    if len(p) >= 2 and p[-2] in ("HashMap", "Vec", "BTreeMap", "String", "Map", "str") and p[-1] == "is_empty":
        return mk("empty", v)
    k = fn_named(ctx, adt_path, f.skip_if)
    if k is not None:
        return ctx.run(k, {1: v}).value
    return mk("app", "core::unresolved condition " + f.skip_if, (), (v,))


def check_struct(ctx, rep, adt_path, spec, what, exact=True, ser=True, de=True, closed=True):
    """spec: {rust field: (wire name, 'req'|'opt'|'flatten'|('default', term)[, 'omit'|'keep'])}"""
    short = adt_path.split("::")[-1] if adt_path else "?"
    a = ctx.P.adts.get(adt_path) if adt_path else None
    if a is None:
        rep.bad("wire shape", what, "the type is gone")
        return
    where = "struct " + adt_path
    okd = True
    for tr, used in ((SER, ser), (DE, de)):
        if used:
            d = derives(ctx, adt_path, tr)
            if d is None:
                rep.bad("wire shape", where, "no longer %s" % ("serialisable" if tr == SER else "deserialisable"))
                okd = False
            elif d is False:
                rep.unk("wire shape", where, "%s is hand-written; only derived shapes are decided" % tr)
                okd = False
    if not okd:
        return
    cont = a["attrs"]
    for k in ("transparent", "tag", "untagged", "into", "from", "try_from", "remote"):
        if get(cont, k):
            if k in ("tag", "untagged", "transparent"):
                rep.bad("wire shape", where, "container attribute %s changes the JSON shape" % k)
            else:
                rep.unk("wire shape", where, "converted through another type (%s)" % k)
                return
    if get(cont, "deny_unknown_fields"):
        rep.bad("unknown members tolerated", where, "unknown members make reading fail (deny_unknown_fields)")
    else:
        rep.ok("unknown members tolerated", where)
    fs = {f.rust: f for f in fields(ctx, adt_path)}
    # a renamed private field is the same member if its wire name is
    by_wire = {f.ser: f for f in fs.values() if not f.flatten}
    seen = set()
    for rust, sp in spec.items():
        wire, kind = sp[0], sp[1]
        f = fs.get(rust)
        if f is None or (not f.flatten and kind != "flatten" and f.ser != wire and wire in by_wire and rust not in fs):
            f = by_wire.get(wire, f)
        w = where + ", field " + rust
        if f is None:
            rep.bad("member present", w, "member \"%s\" is no longer carried" % wire)
            continue
        seen.add(f.rust)
        if kind == "flatten":
            if not f.flatten:
                rep.bad("other members collected", w, "members without a field of their own are no longer gathered in / written from it (not flattened)")
            elif f.skip_ser or f.skip_de:
                rep.bad("other members collected", w, "skipped")
            else:
                rep.ok("other members collected", w)
            continue
        if f.flatten:
            rep.bad("member name", w, "flattened, so \"%s\" is no longer a member of its own" % wire)
            continue
        if ser:
            if f.skip_ser:
                rep.bad("member written", w, "never written")
                continue
            rep.judge("member name", w, f.ser == wire, "written as \"%s\", not \"%s\"" % (f.ser, wire))
        if de:
            if f.skip_de:
                rep.bad("member read", w, "never read")
                continue
            rep.judge("member name", w + " (reading)", wire in f.de, "read from \"%s\", not \"%s\"" % ("/".join(f.de), wire))
        if f.with_ and not (len(sp) > 3 and sp[3] == "with"):
            rep.unk("member conversion", w, "custom conversion %s" % f.with_)
        elif de:
            got = default_value(ctx, adt_path, f)
            if kind == "req":
                rep.judge("missing member", w, got is None, "a missing \"%s\" is accepted and reads as %s" % (wire, show(got, 100) if got is not None else ""))
            elif kind == "opt":
                want = NONE if f.option else type_default(ctx, f.ty)
                if got is None:
                    rep.bad("missing member", w, "a missing \"%s\" makes reading fail" % wire)
                else:
                    rep.same("missing member", w, got, want)
            elif kind == "any":
                pass
            else:
                if got is None:
                    rep.bad("missing member", w, "a missing \"%s\" makes reading fail" % wire)
                else:
                    rep.same("missing member", w, got, kind[1])
        if ser:
            om = omitted_when(ctx, adt_path, f)
            mode = sp[2] if len(sp) > 2 else ("omit" if f.option and kind == "opt" else "keep")
            if mode == "omit":
                rep.same("absent value omitted", w, om, isv(sym("v"), "None", ONCE))
            elif mode == "keep":
                # whatever is left out must read back as the same value
                if om is not FALSE:
                    rep.same("value always written", w, om, FALSE)
                else:
                    rep.ok("value always written", w)
            elif mode == "absent":
                # an absent value may be written as null or left out: the reader sees it absent either way
                if f.option and om is not FALSE:
                    rep.same("only an absent value left out", w, om, isv(sym("v"), "None", ONCE))
                else:
                    rep.same("value always written", w, om, FALSE)
    for f in fs.values():
        if f.rust not in seen and exact:
            if f.flatten:
                rep.bad("no further members", where + ", field " + f.rust, "another set of members is merged into the object")
            else:
                # an added optional member that is omitted when absent does not disturb the others
                d = default_value(ctx, adt_path, f)
                if de and d is None and not f.skip_de:
                    rep.bad("no further members", where + ", field " + f.rust, "a document without \"%s\" is no longer accepted" % f.de[0])
                if f.ser in [s[0] for s in spec.values()]:
                    rep.bad("no further members", where + ", field " + f.rust, "a second member called \"%s\"" % f.ser)


def check_enum_names(ctx, rep, adt_path, spec, what, other=None, serde=True):
    """spec: {variant: wire name} of a fieldless enum; other: name of the catch-all variant"""
    a = ctx.P.adts.get(adt_path) if adt_path else None
    if a is None:
        rep.bad("identifier table", what, "the type is gone")
        return
    where = "enum " + adt_path
    vs = {v["name"]: v for v in a["variants"]}
    cont = a["attrs"]
    for k in ("transparent", "tag", "untagged", "content", "into", "from", "try_from", "remote"):
        if get(cont, k):
            if k in ("tag", "untagged", "content", "transparent"):
                rep.bad("identifier table", where, "container attribute %s: no longer written as its bare name" % k)
            else:
                rep.unk("identifier table", where, "converted through another type (%s)" % k)
                return
    for tr in () if other else (SER, DE):
        d = derives(ctx, adt_path, tr)
        if d is None:
            rep.bad("identifier table", where, "no longer %s" % ("serialisable" if tr == SER else "deserialisable"))
            return
        if d is False:
            rep.unk("identifier table", where, "%s is hand-written; only derived names are decided" % tr)
            return
    for v, wire in spec.items():
        w = where + ", variant " + v
        if v not in vs:
            rep.bad("identifier table", w, "\"%s\" is no longer known" % wire)
            continue
        s, d = names_of(vs[v]["attrs"], cont, v, True)
        if get(vs[v]["attrs"], "skip") or get(vs[v]["attrs"], "skip_serializing") or get(vs[v]["attrs"], "skip_deserializing"):
            rep.bad("identifier table", w, "skipped")
            continue
        rep.judge("identifier table", w, s == wire, "written as \"%s\", not \"%s\"" % (s, wire))
        rep.judge("identifier table", w + " (reading)", wire in d, "read from \"%s\", not \"%s\"" % ("/".join(d), wire))
    used = {}
    for v in vs:
        if other and v == other:
            continue
        s, d = names_of(vs[v]["attrs"], cont, v, True)
        for n in set(d) | {s}:
            if n in used and used[n] != v:
                rep.bad("identifier table", where, "\"%s\" names both %s and %s" % (n, used[n], v))
            used[n] = v
            if n in spec.values() and spec.get(v) != n:
                rep.bad("identifier table", where + ", variant " + v, "takes over \"%s\"" % n)
    if other:
        o = vs.get(other)
        rep.judge("unknown identifiers kept", where, o is not None and bool(get(o["attrs"], "other")) and len(o["fields"]) == 1, "no catch-all variant that keeps an unknown identifier")
