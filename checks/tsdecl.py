"""What the TypeScript declarations of the wasm package promise, against what
the core crate puts into and takes from JSON, and against the exported functions."""
import os
import re
from common import *
import wire

ROOT = "/repo/wasm/src"

# ---------------------------------------------------------------- Rust source, as text


def lex(s):
    """(source with comments and strings blanked, [(position, string)])"""
    out, strs, i, n = [], [], 0, len(s)

    def blank(j):
        out.append(re.sub(r"[^\n]", " ", s[i:j]))
    while i < n:
        m = re.compile(r'(?:br|r)(#*)"').match(s, i)
        if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            j = s.find('"' + m.group(1), m.end())
            j = n if j < 0 else j
            strs.append((i, s[m.end():j]))
            e = min(n, j + 1 + len(m.group(1)))
            blank(e)
            i = e
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            strs.append((i, s[i + 1:j].replace("\\n", "\n").replace('\\"', '"')))
            blank(min(n, j + 1))
            i = min(n, j + 1)
        elif s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(j)
            i = j
        elif s.startswith("/*", i):
            j, d = i + 2, 1
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(j)
            i = j
        elif re.compile(r"'(?:\\.[^']*|[^'\\])'").match(s, i):
            j = re.compile(r"'(?:\\.[^']*|[^'\\])'").match(s, i).end()
            blank(j)
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out), strs


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for k, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or c == ">" and s[k - 1:k] not in ("-", "="):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def balanced(s, i):
    """end of the bracket opening at i"""
    d = 0
    for j in range(i, len(s)):
        d += s[j] in "([{"
        d -= s[j] in ")]}"
        if not d:
            return j
    return len(s)


def sources():
    for d, _, fs in sorted(os.walk(ROOT)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                yield p[len("/repo/"):], open(p, encoding="utf8").read()


class Fn(object):
    pass


def rust_side():
    """declaration texts, exported functions by (type, name), functions imported from JavaScript, exported structs"""
    decls, exported, imports, classes, named = [], {}, {}, set(), set()
    for f, s in sources():
        code, strs = lex(s)
        for m in re.finditer(r"#\[\s*wasm_bindgen\s*\(([^\]]*)\)\s*\]", code):
            if "typescript_custom_section" in m.group(1):
                later = [(p, t) for p, t in strs if p > m.end()]
                if later and ";" not in code[m.end():later[0][0]]:
                    decls.append((f, later[0][1]))
            if "typescript_type" in m.group(1):
                inside = [t for p, t in strs if m.start() < p < m.end()]
                named.update(inside)
        for m in re.finditer(r"#\[\s*wasm_bindgen[^\]]*\](?:\s*#\[[^\]]*\])*\s*pub\s+struct\s+(\w+)", code):
            classes.add(m.group(1))
        for m in re.finditer(r"#\[\s*wasm_bindgen[^\]]*\](?:\s*#\[[^\]]*\])*\s*impl\s+(\w+)\s*\{", code):
            body = code[m.end():balanced(code, m.end() - 1)]
            for g in functions(body, s[m.end():]):
                g.file, g.of = f, m.group(1)
                exported[(g.of, g.name)] = g
        for m in re.finditer(r"#\[\s*wasm_bindgen[^\]]*\](?:\s*#\[[^\]]*\])*\s*extern\s*(?=\s*\{|\s+\{)", code):
            i = code.index("{", m.end())
            for g in functions(code[i + 1:balanced(code, i)], s[i + 1:]):
                if g.params and g.params[0][0] == "this":
                    g.file, g.of = f, g.params[0][1].lstrip("& ").strip()
                    g.params = g.params[1:]
                    imports[(g.of, g.name)] = g
    return decls, exported, imports, classes


def functions(body, src):
    for m in re.finditer(r"((?:#\[[^\]]*\]\s*)*)pub\s+(?:async\s+)?fn\s+(\w+)\s*(?:<[^(){}]*>)?\s*\(", body):
        j = balanced(body, m.end() - 1)
        g = Fn()
        g.attrs = m.group(1)
        js = re.search(r"js_name\s*=\s*\"?(\w+)", src[m.start():m.end()])
        g.name = js.group(1) if js else m.group(2)
        ps = split_top(body[m.end():j])
        g.method = bool(ps) and re.match(r"^(&\s*)?(mut\s+)?self$", ps[0]) is not None
        g.params = [tuple(x.strip() for x in p.split(":", 1)) for p in ps if ":" in p]
        t = re.match(r"\s*->\s*([^{;]+)", body[j + 1:])
        g.ret = re.sub(r"\s+", "", t.group(1)) if t else "()"
        yield g


# ---------------------------------------------------------------- TypeScript

class Bad(Exception):
    pass


TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/", re.S)
SYM = re.compile(r"=>|[A-Za-z_$][\w$]*|\"[^\"]*\"|'[^']*'|\d+|[{}()\[\]<>|,;:?=.&]")


class TS(object):
    """types: ("prim", n) ("lit", s) ("array", t) ("record", t) ("tuple", ts) ("union", ts) ("obj", {n: (t, optional)}, {n: (params, ret)}, index) ("ref", n) ("promise", t)"""

    def __init__(self, text):
        self.t, i = [], 0
        while i < len(text):
            m = TOK.match(text, i)
            if m:
                i = m.end()
                continue
            m = SYM.match(text, i)
            if not m:
                raise Bad(text[i:i + 20])
            self.t.append(m.group(0))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x=None):
        c = self.peek()
        if c is None or x is not None and c != x:
            raise Bad("%s where %s" % (c, x))
        self.i += 1
        return c

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def type(self):
        self.opt("|")
        ts = [self.postfix()]
        while self.opt("|"):
            ts.append(self.postfix())
        return ts[0] if len(ts) == 1 else ("union", tuple(ts))

    def postfix(self):
        t = self.atom()
        while self.peek() == "[" and self.peek(1) == "]":
            self.i += 2
            t = ("array", t)
        return t

    def atom(self):
        c = self.peek()
        if c == "{":
            return self.obj()
        if c == "[":
            self.eat()
            ts = []
            while not self.opt("]"):
                ts.append(self.type())
                self.opt(",")
            return ("tuple", tuple(ts))
        if c == "(":
            self.eat()
            t = self.type()
            self.eat(")")
            return t
        c = self.eat()
        if c[0] in "\"'":
            return ("lit", c[1:-1])
        args = []
        if self.opt("<"):
            while not self.opt(">"):
                args.append(self.type())
                self.opt(",")
        if c in ("Array", "ReadonlyArray") and len(args) == 1:
            return ("array", args[0])
        if c == "Promise" and len(args) == 1:
            return ("promise", args[0])
        if c in ("Record", "Map") and len(args) == 2:
            return ("record" if c == "Record" else "map", args[1])
        if c in ("string", "number", "boolean", "any", "unknown", "null", "undefined", "object", "void"):
            return ("prim", c)
        if c in ("String", "Number", "Boolean", "Object"):
            return ("prim", c.lower())
        if not re.match(r"[A-Za-z_$]", c) or args:
            raise Bad(c)
        return ("ref", c)

    def params(self):
        ps = []
        self.eat("(")
        while not self.opt(")"):
            n = self.eat()
            o = self.opt("?")
            self.eat(":")
            ps.append((n, self.type(), o))
            self.opt(",")
        return ps

    def obj(self):
        self.eat("{")
        mem, meth, index = {}, {}, None
        while not self.opt("}"):
            if self.opt("["):
                self.eat()
                self.eat(":")
                self.type()
                self.eat("]")
                self.eat(":")
                index = self.type()
            else:
                n = self.eat()
                if n == "readonly" and self.peek() not in (":", "?", "("):
                    n = self.eat()
                if n[0] in "\"'":
                    n = n[1:-1]
                o = self.opt("?")
                if self.peek() == "(":
                    ps = self.params()
                    self.eat(":")
                    meth[n] = (ps, self.type())
                else:
                    self.eat(":")
                    mem[n] = (self.type(), o)
            while self.opt(",") or self.opt(";"):
                pass
        return ("obj", mem, meth, index)

    def file(self):
        while self.peek() is not None:
            while self.opt("export") or self.opt("declare") or self.opt(";"):
                pass
            if self.peek() is None:
                return
            k = self.eat()
            if k == "type":
                n = self.eat()
                self.eat("=")
                yield "type", n, self.type()
            elif k == "interface":
                n = self.eat()
                yield "interface", n, self.obj()
            elif k == "namespace":
                n = self.eat()
                self.eat("{")
                fs = {}
                while not self.opt("}"):
                    while self.opt("export") or self.opt(";"):
                        pass
                    if self.opt("}"):
                        break
                    self.eat("function")
                    f = self.eat()
                    ps = self.params()
                    self.eat(":")
                    fs[f] = (ps, self.type())
                yield "namespace", n, fs
            else:
                raise Bad(k)


def parts(t):
    return list(t[1]) if t[0] == "union" else [t]


def told(t):
    if t[0] in ("prim", "ref"):
        return t[1]
    if t[0] == "lit":
        return '"%s"' % t[1]
    if t[0] == "union":
        return " | ".join(told(x) for x in t[1])
    if t[0] == "tuple":
        return "[%s]" % ", ".join(told(x) for x in t[1])
    if t[0] == "obj":
        return "{%s}" % ", ".join(sorted(t[1]))
    return "%s<%s>" % (t[0], told(t[1]))


# ---------------------------------------------------------------- the core crate's JSON

def strip(ty):
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    m = re.match(r"^(alloc::boxed::Box|alloc::rc::Rc|alloc::sync::Arc|alloc::borrow::Cow)<(.*)>$", ty)
    if m:
        return strip(split_top(m.group(2))[-1])
    return ty


def generic(ty, *heads):
    m = re.match(r"^([\w:]+)<(.*)>$", ty)
    if m and m.group(1).split("::")[-1] in heads:
        return split_top(m.group(2))
    return None


class Member(object):
    def __init__(self, ty, absent, needed):
        self.ty, self.absent, self.needed = ty, absent, needed


def json_members(ctx, p, seen=()):
    """{name: Member} of the JSON object of a struct, and whether others may be there; None: not followed"""
    a = ctx.P.adts.get(p)
    if a is None or a["kind"] == "enum" or p in seen:
        return None
    return members_of(ctx, p, None, seen)


def members_of(ctx, p, variant, seen=()):
    mem, more = {}, False
    reads = wire.derives(ctx, p, wire.DE) is True
    writes = wire.derives(ctx, p, wire.SER) is True
    if not reads and not writes:
        return None
    for f in wire.fields(ctx, p, variant):
        if f.skip_ser and f.skip_de:
            continue
        ty = strip(f.ty)
        if f.with_:
            return None
        if f.flatten:
            q = re.sub(r"<.*", "", ty)
            if generic(ty, "HashMap", "BTreeMap", "Map") or ty == "serde_json::value::Value":
                more = True
                continue
            a = ctx.P.adts.get(q)
            if a is None:
                return None
            if a["kind"] != "enum":
                r = json_members(ctx, q, seen + (p,))
                if r is None:
                    return None
                mem.update(r[0])
                more = more or r[1]
                continue
            tag, content = wire.get(a["attrs"], "tag"), wire.get(a["attrs"], "content")
            if wire.get(a["attrs"], "untagged"):
                for v in a["variants"]:
                    r = members_of_variant(ctx, q, v["name"])
                    if r is None:
                        return None
                    for n, m in r[0].items():
                        mem[n] = Member(m.ty, True, False)
                    more = more or r[1]
            elif tag and content:
                mem[tag] = Member("alloc::string::String", False, True)
                mem[content] = Member(None, False, True)
            else:
                return None
            continue
        o = generic(ty, "Option")
        name = f.ser if writes else (f.de[0] if f.de else None)
        if name is None:
            return None
        absent = bool(o or f.skip_if) if writes else False
        m = Member(o[0] if o else ty, absent, reads and not o and not f.default and not f.skip_de)
        mem[name] = m
        if writes and reads and f.de and f.ser not in f.de:
            return None
    return mem, more


def members_of_variant(ctx, p, variant):
    """serde derives are those of the enum"""
    return members_of(ctx, p, variant)


INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64")


class Judge(object):
    def __init__(self, ctx, rep, types, classes):
        self.ctx, self.rep, self.types, self.classes = ctx, rep, types, classes
        self.by = {}
        for p, a in ctx.P.adts.items():
            if p.startswith("didcomm::"):
                self.by.setdefault(p.split("::")[-1], []).append(p)

    def core(self, n):
        for m in (n, n[1:] if re.match(r"I[A-Z]", n) else None):
            c = [p for p in self.by.get(m, ()) if wire.derives(self.ctx, p, wire.DE) is not None or wire.derives(self.ctx, p, wire.SER) is not None]
            if len(c) == 1:
                return c[0]
        return None

    def agree(self, t, ty, depth=0):
        """None when values of the Rust type are what the declaration says, else what is wrong; Bad when not followed"""
        ts = [x for x in parts(t) if x not in (("prim", "null"), ("prim", "undefined"))]
        if ty is None or not ts or any(x in (("prim", "any"), ("prim", "unknown")) for x in ts):
            return None
        ty = strip(ty)
        o = generic(ty, "Option")
        if o:
            return self.agree(t, o[0], depth)
        if ty == "serde_json::value::Value":
            return None
        if depth > 12:
            raise Bad("nested too deep")
        # a name declared for this very type is judged where it is declared
        p = re.sub(r"<.*", "", ty)
        ts = [x for x in ts if not (x[0] == "ref" and x[1] in self.types and self.core(x[1]) == p)]
        if not ts:
            return None
        # names declared for other types
        flat = []
        for x in ts:
            if x[0] == "ref" and x[1] in self.types and self.types[x[1]][0] in ("union", "lit", "prim", "array", "record", "tuple"):
                flat += [y for y in parts(self.types[x[1]])]
            else:
                flat.append(x)
        ts = flat
        if any(x in (("prim", "any"), ("prim", "unknown")) for x in ts):
            return None
        for x in ts:
            if x[0] == "ref" and x[1] in self.classes:
                return "a %s object is declared where plain data is" % x[1]
        if ty in ("alloc::string::String", "str"):
            return None if all(x == ("prim", "string") or x[0] == "lit" for x in ts) else "%s is declared for a text" % told(t)
        if ty == "bool":
            return None if all(x == ("prim", "boolean") for x in ts) else "%s is declared for a boolean" % told(t)
        if ty in INTS:
            return None if all(x == ("prim", "number") for x in ts) else "%s is declared for a number" % told(t)
        v = generic(ty, "Vec", "HashSet", "BTreeSet", "VecDeque")
        if v:
            for x in ts:
                if x[0] != "array":
                    return "%s is declared for a list" % told(x)
                r = self.agree(x[1], v[0], depth + 1)
                if r:
                    return "in the list: " + r
            return None
        v = generic(ty, "HashMap", "BTreeMap", "Map")
        if v:
            for x in ts:
                if x == ("prim", "object"):
                    continue
                if x[0] == "obj" and x[3] is not None and not x[1]:
                    x = ("record", x[3])
                if x[0] != "record":
                    return "%s is declared for an object of any members" % told(x)
                r = self.agree(x[1], v[1], depth + 1)
                if r:
                    return "in the object: " + r
            return None
        p = re.sub(r"<.*", "", ty)
        a = self.ctx.P.adts.get(p)
        if a is None:
            raise Bad("type " + ty)
        if a["kind"] == "enum" and all(not v["fields"] for v in a["variants"]):
            if any(x[0] not in ("lit",) and x != ("prim", "string") for x in ts):
                return "%s is declared for one of some texts" % told(t)
            outs, ins = set(), set()
            for v in a["variants"]:
                s, d = wire.names_of(v["attrs"], a["attrs"], v["name"], True)
                outs.add(s)
                ins.update(d)
            reads = wire.derives(self.ctx, p, wire.DE) is not None
            for x in ts:
                if x[0] == "lit" and x[1] not in (ins if reads else outs):
                    return '"%s" is declared, which is no value of it' % x[1]
            if not any(x == ("prim", "string") for x in ts):
                left = sorted(outs - set(x[1] for x in ts))
                if left:
                    return '"%s" is not declared' % left[0]
            return None
        if a["kind"] == "enum":
            if not wire.get(a["attrs"], "untagged"):
                raise Bad("enum " + ty)
            vs = [v["name"] for v in a["variants"]]
            for x in ts:
                rs = [self.object(x, members_of_variant(self.ctx, p, v), depth + 1) for v in vs]
                if all(rs):
                    return "%s is none of its kinds: %s" % (told(x), rs[0])
            for v in vs:
                rs = [self.object(x, members_of_variant(self.ctx, p, v), depth + 1) for x in ts]
                if all(rs):
                    return "kind %s is not declared: %s" % (v, rs[0])
            return None
        for x in ts:
            r = self.object(x, json_members(self.ctx, p), depth + 1)
            if r:
                return r
        return None

    def object(self, x, r, depth):
        bad = list(self.faults(x, r, depth))
        return bad[0][1] if bad else None

    def faults(self, x, r, depth=0):
        """(member, what is wrong) of an object type"""
        if r is None:
            raise Bad("its JSON")
        mem, more = r
        if x[0] == "ref":
            if x[1] in self.classes:
                yield "", "a %s object is declared where plain data is" % x[1]
                return
            if x[1] not in self.types:
                raise Bad("type " + x[1])
            if self.types[x[1]][0] == "ref":
                for f in self.faults(self.types[x[1]], r, depth):
                    yield f
                return
            x = self.types[x[1]]
        if x[0] != "obj":
            yield "", "%s is declared for an object" % told(x)
            return
        for n, (t, opt) in sorted(x[1].items()):
            if n not in mem:
                if not more:
                    yield n, "no member is called so"
                continue
            m = mem[n]
            null = opt or any(y in (("prim", "null"), ("prim", "undefined"), ("prim", "any"), ("prim", "unknown")) for y in parts(t))
            if m.absent and not null:
                yield n, "it is declared to be always there, and need not be"
            if m.needed and opt:
                yield n, "it is declared optional, and refused when it is left out"
            e = self.agree(t, m.ty, depth + 1)
            if e:
                yield n, e
        for n in sorted(mem):
            if n not in x[1]:
                yield n, "it is not declared"


# ---------------------------------------------------------------- the rules

def declarations(ctx, rep):
    decls, exported, imports, classes = rust_side()
    types, where_, methods = {}, {}, {}
    for f, text in decls:
        try:
            for k, n, t in TS(text).file():
                if k == "type":
                    types[n] = t
                    where_[n] = f
                elif k == "interface" and (n in classes or n in set(o for o, _ in imports)):
                    for m, sig in t[2].items():
                        methods[(n, m)] = (f, sig, False)
                elif k == "interface":
                    types[n] = t
                    where_[n] = f
                else:
                    for m, sig in t.items():
                        methods[(n, m)] = (f, sig, True)
        except Bad as e:
            rep.unk("declarations read", f, "a declaration is not followed at %s" % e)
    J = Judge(ctx, rep, types, classes)
    seen = 0
    for n, t in sorted(types.items()):
        p = J.core(n)
        w = "%s, type %s" % (where_[n], n)
        if p is None:
            continue
        seen += 1
        a = ctx.P.adts[p]
        try:
            if a["kind"] != "enum" and t[0] == "obj":
                r = json_members(ctx, p)
                bad = list(J.faults(("ref", n), r))
                for m, e in bad:
                    rep.bad("data as declared", "%s, member %s" % (w, m), "%s (%s)" % (e, p))
                wrong = set(m for m, _ in bad)
                for m in sorted(set(t[1]) | set(r[0])):
                    if m not in wrong:
                        rep.ok("data as declared", "%s, member %s" % (w, m))
            elif wire.get(a["attrs"], "tag") and wire.get(a["attrs"], "content"):
                rep.judge("data as declared", w, any(x == ("prim", "any") for x in parts(t)), "content of other kinds is not declared")
            else:
                e = J.agree(t if t[0] != "ref" else ("ref", n), p)
                rep.judge("data as declared", w, e is None, "%s (%s)" % (e, p))
        except Bad as e:
            rep.unk("data as declared", w, "not followed: %s" % e)
    if not seen:
        rep.unk("data as declared", "wasm/src", "no declaration is found")
    calls(rep, J, methods, exported, imports, classes)


def calls(rep, J, methods, exported, imports, classes):
    for (c, n), (f, (ps, ret), static) in sorted(methods.items()):
        w = "%s, %s.%s" % (f, c, n)
        g = exported.get((c, n)) or imports.get((c, n))
        if g is None and not any(k[0] == c for k in list(exported) + list(imports)):
            rep.unk("function as declared", w, "no %s is exported or imported" % c)
            continue
        if g is None:
            rep.bad("function as declared", w, "%s is declared, and there is no such function" % n)
            continue
        rep.judge("function as declared", w + ", on an object or not", (c, n) in imports or g.method == (not static), "%s" % ("it is a method" if g.method else "it belongs to the type, not to an object"))
        rep.judge("function as declared", w + ", parameters", len(ps) == len(g.params), "%d parameters are declared, it takes %d" % (len(ps), len(g.params)))
        if len(ps) != len(g.params):
            continue
        A, B = [p[0] for p in ps], [p[0] for p in g.params]
        both = [x for x in A if x in B]
        rep.judge("function as declared", w + ", order", both == [x for x in B if x in A], "the declared order is %s, it takes %s" % (", ".join(A), ", ".join(B)))
        for (pn, t, o), (rn, ty) in zip(ps, g.params):
            e = param(J, t, o, re.sub(r"\s+", "", ty), classes)
            rep.judge("function as declared", "%s, %s" % (w, pn), e is None, e or "")
        if (c, n) in exported:
            r = g.ret
            m = re.match(r"^Result<(.*),JsValue>$", r)
            r = m.group(1) if m else r
            rep.judge("function as declared", w + ", result", (ret[0] == "promise") == (r == "Promise"), "%s is declared, it returns %s" % (told(ret), r))
            if r == "JsValue":
                cs = [x[1] for x in parts(ret) if x[0] == "ref" and x[1] in classes]
                rep.judge("function as declared", w + ", data returned", not cs, "a %s object is declared where plain data is returned" % (cs or [""])[0])
        else:
            rep.judge("function as declared", w + ", result", ret[0] == "promise", "%s is declared where a promise is awaited" % told(ret))
    for (c, n), g in sorted(list(exported.items()) + list(imports.items())):
        if (c, n) in methods:
            continue
        if "constructor" in g.attrs or ((c, n) in exported and "skip_typescript" not in g.attrs):
            continue
        rep.bad("function declared", "%s, %s.%s" % (g.file, c, n), "it is not declared")


def param(J, t, o, ty, classes):
    null = o or any(x in (("prim", "null"), ("prim", "undefined")) for x in parts(t))
    rest = [x for x in parts(t) if x not in (("prim", "null"), ("prim", "undefined"))]
    m = re.match(r"^Option<(.*)>$", ty)
    if m:
        return param(J, ("union", tuple(rest)) if len(rest) != 1 else rest[0], False, m.group(1), classes) or (None if null or rest == [("prim", "any")] else "it is declared to be always there, and may be left out")
    if ty in ("String", "&str"):
        if null:
            return "it is declared to be left out at will, and is needed"
        return None if all(x == ("prim", "string") or x[0] == "lit" or x[0] == "ref" and x[1] in J.types for x in rest) else "%s is declared for a text" % told(t)
    if ty in ("bool", "u32", "u64", "f64", "usize", "i32"):
        return None if rest == [("prim", "boolean" if ty == "bool" else "number")] else "%s is declared for %s" % (told(t), ty)
    if ty == "Array":
        return None if all(x[0] == "array" or x == ("prim", "any") for x in rest) else "%s is declared for a list" % told(t)
    if ty.lstrip("&") in ("JsValue", "Promise", "Object"):
        return None
    want = ty.lstrip("&")
    return None if all(x in (("ref", want), ("prim", "any")) for x in rest) else "%s is declared for %s" % (told(t), want)
