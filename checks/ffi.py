"""The two language bindings: what they hand to the core crate and what they hand back."""
import os
import re
from common import *
from errors import KINDS, holding, contains
from prov import walk_all, A, last, someof
from panics import no_panics
import term as TM

UDL = "/repo/uniffi/src/didcomm.udl"
CORE_OP = re.compile(r"^didcomm::")
RESULT2 = ("Ok", "Err")
KIND = "didcomm::error::ErrorKind"


def yes(x, v):
    return (isv(x, v, RESULT2), True)


def core_calls(r, name, owner):
    """calls of the core operation of that name (owner: the type it belongs to, None for a free function)"""
    out = []
    for e in r.events:
        if e.kind != "call" or not CORE_OP.match(e.name) or last(e.name) != name:
            continue
        m = re.search(r"<impl ([\w:]+)>", e.name)
        have = last(m.group(1)) if m else (e.name.split("::")[-2] if e.name.split("::")[-2][:1].isupper() else None)
        if have == owner:
            out.append(e)
    return out


def exactly(rep, rule, where_, evs, C, what):
    """the events happen exactly once, and just when the facts C hold"""
    looped = [e for e in evs if e.loops]
    if looped:
        rep.judge(rule, where_, False, what + " is repeated", *looped[0].args)
        return False
    left = [frozenset(C)]
    for e in evs:
        left = [x for f in left for x in (ext(f, negfacts(e.F)),) if x is not None]
    for f in left:
        for G in sat_cases(f):
            rep.judge(rule, where_, False, "%s does not happen when %s" % (what, show(G, 500)), *[a for a, _ in G])
            return False
    for n, e in enumerate(evs):
        for f in C:
            x = ext(e.F, [(f[0], not f[1])])
            if x is not None and any(True for _ in sat_cases(x)):
                rep.judge(rule, where_, False, "%s happens when %s" % (what, show(x, 500)), *[a for a, _ in x])
                return False
        for d in evs[:n]:
            x = ext(e.F, d.F)
            if x is not None and any(True for _ in sat_cases(x)):
                rep.judge(rule, where_, False, "%s happens twice when %s" % (what, show(x, 500)), *[a for a, _ in x])
                return False
    rep.ok(rule, where_)
    return True


def outcome(evs, name, args):
    """the term a call with these arguments stands for, as the function analysed goes on with it"""
    return evs[0].res if getattr(evs[0], "res", None) is not None else None


# ---------------------------------------------------------------- uniffi

def udl_methods():
    """the operations the interface description offers: name -> parameter names by position"""
    try:
        text = open(UDL).read()
    except OSError:
        return None
    m = re.search(r"interface\s+DIDComm\s*\{(.*?)\n\}", text, re.S)
    if not m:
        return None
    body = re.sub(r"//[^\n]*", "", m.group(1))
    out = {}
    for name, args in re.findall(r"(\w+)\s*\(([^()]*(?:\[[^\]]*\][^()]*)*)\)\s*;", body):
        names = []
        depth, cur = 0, ""
        for ch in args + ",":
            if ch in "<[":
                depth += 1
            if ch in ">]":
                depth -= 1
            if ch == "," and depth == 0:
                if cur.strip():
                    names.append(cur.split()[-1])
                cur = ""
            else:
                cur += ch
        out[name] = names
    return out


# operation -> (core operation, its type, arguments in order, what success is told)
#   a word is a parameter; "did" and "secrets" are the adapters of the two resolvers
UNIFFI = {
    "pack_plaintext": ("pack_plaintext", "Message", ("msg", "did"), 0),
    "pack_signed": ("pack_signed", "Message", ("msg", "sign_by", "did", "secrets"), 2),
    "pack_encrypted": ("pack_encrypted", "Message", ("msg", "to", "from", "sign_by", "did", "secrets", "options"), 2),
    "unpack": ("unpack", "Message", ("msg", "did", "secrets", "options"), 2),
    "pack_from_prior": ("pack", "FromPrior", ("msg", "issuer_kid", "did", "secrets"), 2),
    "unpack_from_prior": ("unpack", "FromPrior", ("from_prior_jwt", "did"), 2),
    "wrap_in_forward": ("wrap_in_forward", None, ("msg", "=headers", "to", "routing_keys", "enc_alg_anon", "did"), 0),
}


def binding(crate):
    return Ctx(crate)


_made = {}


def uniffi(ctx, rep, rule):
    """the binding's own program, and a DIDComm object made of two resolvers"""
    c = _made.get("uniffi")
    if c is None:
        c = _made["uniffi"] = Ctx("uniffi")
    note_use(ctx, c)
    k = the_fn(c, rep, rule, "new", "DIDComm")
    if k is None:
        return c, None
    return c, run(c, k, sym("user_did_resolver"), sym("user_secrets_resolver")).value


def note_use(ctx, c):
    if c not in ctx.bindings:
        ctx.bindings.append(c)


def uniffi_operations(ctx, rep):
    """each operation asks the core operation of that name once, with what it was given, and reports the outcome once"""
    c, obj = uniffi(ctx, rep, "operation")
    methods = udl_methods()
    if methods is None:
        rep.unk("operation", UDL, "the interface description cannot be read")
        return
    if obj is None:
        return
    for name in sorted(UNIFFI):
        core, owner, want, told = UNIFFI[name]
        k = the_fn(c, rep, "operation", name, "DIDComm")
        if k is None:
            continue
        w = where(c, k)
        names = methods.get(name)
        if not names or any(x.lstrip("=") not in names for x in want if x not in ("did", "secrets")):
            rep.unk("operation", w, "its description in the interface file has other parameters: %s" % names)
            continue
        args = [sym(n) for n in names]
        cb = args[-1]
        r = run(c, k, obj, *args)
        operation(c, rep, r, w, core, owner, want, obj)
        evs = core_calls(r, core, owner)
        if not evs:
            continue
        R = evs[0].res
        if R is None or len(set(e.res for e in evs)) > 1:
            rep.unk("outcome reported", w, "the operation is asked in several ways")
            continue
        said = [e for e in r.events if e.kind == "call" and e.args and e.args[0] is cb]
        good = [e for e in said if last(e.name) == "success"]
        bad = [e for e in said if last(e.name) == "error"]
        for e in said:
            if e not in good and e not in bad:
                rep.judge("outcome reported", w, False, "the callback is told %s" % e.name, *e.args)
        exactly(rep, "success is reported once", w, good, [yes(R, "Ok")], "reporting success")
        exactly(rep, "failure is reported once", w, bad, [yes(R, "Err")], "reporting failure")
        v = field(R, "0", "Ok")
        parts = [v] if not told else [field(v, str(n)) for n in range(told)]
        for e in good:
            if len(e.args) != len(parts) + 1:
                rep.judge("result handed on", w, False, "success is told %d things" % (len(e.args) - 1), *e.args)
                continue
            for n, p in enumerate(parts):
                rep.same("result handed on", "%s, part %d" % (w, n + 1), e.args[n + 1], p, e.F, notes=r.notes)
        x = field(R, "0", "Err")
        for e in bad:
            rep.same("kind of the failure handed on", w, e.args[1], field(x, "kind"), e.F, notes=r.notes)
            rep.same("text of the failure handed on", w, e.args[2], pred(lambda s, F, x=x: contains(s, x) and says(s), "the text of the error"), e.F, notes=r.notes)
        rep.same("started", w, r.value, pred(lambda s, F: s.op == "adt" and s.a[1] == "Success", "Success"), notes=r.notes)
        no_panics(rep, r, w)


def says(s):
    return any(x.op == "app" and x.a[0] == "display" for x in walk_all(s))


def operation(c, rep, r, w, core, owner, want, obj, given=lambda n: sym(n), always=(), did=None, secrets=None):
    """the core operation is asked exactly once, with these arguments"""
    evs = core_calls(r, core, owner)
    if not evs:
        rep.judge("operation", w, False, "it never asks %s" % core, r.value)
        return
    exactly(rep, "asked once", w, evs, always, "asking %s" % core)
    for e in evs:
        if len(e.args) != len(want):
            rep.unk("operation", w, "%s takes %d arguments" % (core, len(e.args)))
            continue
        for n, (a, t) in enumerate(zip(e.args, want)):
            at = "%s, argument %d of %s" % (w, n + 1, core)
            if t in ("did", "secrets"):
                adapted(c, rep, a, t, at, obj if did is None else None, did, secrets)
            elif t.startswith("="):
                rep.same("given what it was given", at, a, some(given(t[1:])), e.F, notes=r.notes)
            else:
                rep.same("given what it was given", at, a, given(t), e.F, notes=r.notes)


USER = {"did": "user_did_resolver", "secrets": "user_secrets_resolver"}


def adapted(c, rep, a, t, at, obj, did=None, secrets=None):
    """the adapter handed over is the one of the user's resolver"""
    user = sym(USER[t])
    have = [x for x in walk_all(a) if x.op == "sym"]
    rep.judge("resolvers handed on", at, a.op == "adt" and all(x is user for x in have) and bool(have), "it is given %s" % show(a, 200), a)


# ---------------------------------------------------------------- uniffi resolvers

def adapters(c, r, methods):
    """the resolver adapters given to the core crate: trait method -> adapter value"""
    return [a for e in r.events if e.kind == "call" and CORE_OP.match(e.name) for a in e.args if a.op == "adt"]


def uniffi_adapters(ctx, rep, rule):
    c, obj = uniffi(ctx, rep, rule)
    found = {}
    if obj is None:
        return c, found
    for name in ("unpack", "pack_encrypted"):
        k = the_fn(c, rep, rule, name, "DIDComm", quiet=True)
        if k is None:
            continue
        args = {"unpack": ("msg", "options", "cb"), "pack_encrypted": ("msg", "to", "from", "sign_by", "options", "cb")}[name]
        r = run(c, k, obj, *[sym(x) for x in args])
        for a in adapters(c, r, None):
            for m, tr in (("resolve", "DIDResolver"), ("get_secret", "SecretsResolver"), ("find_secrets", "SecretsResolver")):
                ks = [q for q in c.find_fn(m, last(a.a[0]), tr) if "didcomm::" in (c.P.insts[q].get("trait") or "") and "_uniffi" not in c.P.insts[q]["trait"] and "_js" not in c.P.insts[q]["trait"]]
                if ks and m not in found:
                    found[m] = (ks[0], a)
    for m in ("resolve", "get_secret", "find_secrets"):
        if m not in found:
            rep.unk(rule, "adapter of " + m, "no adapter is handed to the core crate")
    return c, found


def uniffi_resolvers(ctx, rep):
    """the core crate's questions reach the user's resolver, its answers come back as they are"""
    c, found = uniffi_adapters(ctx, rep, "resolver asked")
    for m in sorted(found):
        k, adapter = found[m]
        w = where(c, k)
        key = sym("asked")
        r = run(c, k, adapter, key)
        user = sym(USER["did" if m == "resolve" else "secrets"])
        calls = [e for e in r.events if e.kind == "call" and e.args and e.args[0] is user]
        right = [e for e in calls if last(e.name) == m]
        if not exactly(rep, "resolver asked once", w, right, [], "asking the resolver"):
            continue
        if len(right) != 1 or len(calls) != 1:
            rep.judge("resolver asked", w, False, "it calls %s" % ", ".join(last(e.name) for e in calls), *[a for e in calls for a in e.args])
            continue
        e = right[0]
        rep.same("asked for what was asked", w, e.args[1], key, e.F, notes=r.notes)
        chans = sorted(set(x for x in walk_all(e.args[2]) if x.op == "app" and last(x.a[0]) == "channel"), key=show)
        if len(chans) != 1:
            rep.unk("answer handed back", w, "the callback given is %s" % show(e.args[2], 200))
            continue
        ch = chans[0]
        got = field(ch, "1")
        told = field(got, "0", "Ok")
        failure = holding(field(field(told, "0", "Err"), "kind"))
        lost = holding(adt(KIND, "InvalidState", (), ()))
        answer = field(told, "0", "Ok")
        if m == "find_secrets":
            e0 = mk("elem", key, 0)
            b = mk("elem", answer, 0)
            answer = lst(comp(key, e0, [exists_fact(answer, b, frozenset([(eq(b, e0), True)]))], e0))
        want = alt([(frozenset([yes(got, "Ok"), yes(told, "Ok")]), ok(answer)),
                    (frozenset([yes(got, "Ok"), yes(told, "Err")]), err(failure)),
                    (frozenset([yes(got, "Err")]), err(lost))])
        rep.same("answer handed back", w, r.value, want, notes=r.notes)
        no_panics(rep, r, w)
        callbacks(c, rep, e.args[2], ch)


def callbacks(c, rep, cb, ch):
    """what the resolver reports is sent, once, to whoever asked"""
    if cb.op != "adt":
        rep.unk("report passed on", show(cb, 100), "the callback is not an object of the binding")
        return
    ty = last(cb.a[0])
    sender = field(ch, "0")
    v, kind, text = sym("reported"), sym("kind"), sym("text")
    bad_state = adt(KIND, "InvalidState", (), ())
    for name, args, want in (("success", (v,), ok(v)), ("error", (kind, text), err(holding(kind, text)))):
        ks = c.find_fn(name, ty)
        if not ks:
            rep.bad("report passed on", "%s::%s" % (ty, name), "the function is gone")
            continue
        w = where(c, ks[0])
        r = run(c, ks[0], cb, *args)
        sends = [e for e in r.events if e.kind == "call" and last(e.name) == "send"]
        for e in sends:
            rep.judge("sent to whoever asked", w, contains(e.args[0], sender) and not contains(e.args[0], v), "it is sent to %s" % show(e.args[0], 200), e.args[0])
            rep.same("report passed on", w, e.args[1], want, e.F, notes=r.notes)
        if len(sends) != 1 or sends[0].res is None:
            rep.judge("report passed on", w, False, "it sends %d answers" % len(sends), r.value)
            continue
        s = sends[0]
        foreign = [a for a, b in s.F if any(x is y for y in args for x in walk_all(a))]
        rep.judge("every report is passed on", w, not foreign and not s.loops, "it is sent only when %s" % show(s.F, 300), *[a for a, _ in s.F])
        # it says so exactly when it was sent, and InvalidState otherwise
        yes_ = ext(s.F, [yes(s.res, "Ok")])
        rep.same("said to be passed on", w, r.value, pred(lambda x, F: x.op == "adt" and x.a[1] == "Ok", "Ok"), yes_, notes=r.notes)
        no = ext(s.F, [yes(s.res, "Err")])
        refused = pred(lambda x, F: x.op == "adt" and x.a[1] == "Err" and x.a[3][0].op == "adt" and x.a[3][0].a[1] == "InvalidState", "InvalidState")
        rep.same("refused when it cannot be passed on", w, r.value, refused, no, notes=r.notes)
        for f in splits_of(negfacts(s.F)):
            rep.same("refused when it cannot be passed on", w, r.value, refused, frozenset(f), notes=r.notes)
        no_panics(rep, r, w)


def splits_of(F):
    return list(sat_cases(frozenset(F)))


def uniffi_values(ctx, rep):
    """JSON values cross the boundary as their text"""
    c, obj = uniffi(ctx, rep, "JSON values")
    t = sym("text")
    for name, want in (("into_custom", None), ("from_custom", None)):
        ks = [k for k in c.find_fn(name, None, "UniffiCustomTypeConverter")]
        if not ks:
            rep.unk("JSON values", name, "the conversion is not found")
            continue
        w = where(c, ks[0])
        r = run(c, ks[0], t)
        calls = [e for e in r.events if e.kind == "call" and last(e.name) in (("from_str", "from_slice") if name == "into_custom" else ("to_string", "to_vec"))]
        if len(calls) != 1 or calls[0].res is None:
            rep.unk("JSON values", w, "it is converted by other means")
            continue
        p = calls[0].res
        rep.same("JSON values", w + ", the value converted", calls[0].args[0], t, notes=r.notes)
        if name == "into_custom":
            rep.same("JSON values", w, r.value, alt([(frozenset([yes(p, "Ok")]), ok(field(p, "0", "Ok"))), (frozenset([yes(p, "Err")]), err(ANY))]), notes=r.notes)
        else:
            rep.same("JSON values", w, r.value, field(p, "0", "Ok"), frozenset([yes(p, "Ok")]), notes=r.notes)


def uniffi_examples(ctx, rep):
    """the bundled resolvers report the entry of that very id"""
    from model import first_with_id, neg_fact
    c, obj = uniffi(ctx, rep, "exact lookup")
    for ty, tr, meths in (("ExampleDIDResolver", "DIDResolver", ("resolve",)), ("ExampleSecretsResolver", "SecretsResolver", ("get_secret", "find_secrets"))):
        new = the_fn(c, rep, "exact lookup", "new", ty)
        if new is None:
            continue
        L, key, cb = sym("known"), sym("asked"), sym("cb")
        obj = run(c, new, L).value
        for m in meths:
            k = the_fn(c, rep, "exact lookup", m, ty, tr)
            if k is None:
                continue
            w = where(c, k)
            cuts = c.find_fn("success", "OnResult") + c.find_fn("error", "OnResult")
            r = run(c, k, obj, key, cb, cuts=cuts)
            told = [e for e in r.events if e.kind == "cut" and e.args and e.args[0] is cb]
            if not told:
                rep.unk("exact lookup", w, "the callback is not told")
                continue
            for e in told:
                rep.judge("exact lookup", w + ", success reported", last(e.name) == "success", "it reports %s" % e.name, *e.args)
            if not exactly(rep, "reported once", w, told, [], "reporting to the callback"):
                continue
            for e in told:
                if m == "find_secrets":
                    x = mk("elem", key, 0)
                    ex = first_with_id(L, x)[1]
                    want = lst(comp(key, x, [ex], x))
                else:
                    x, ex = first_with_id(L, key)
                    want = alt([(frozenset([ex]), some(x)), (frozenset([neg_fact(ex)]), NONE)])
                rep.same("exact lookup", w, e.args[1], want, e.F, notes=r.notes)
            if len(told) == 1 and told[0].res is not None:
                R = told[0].res
                for v, s in (("Ok", "Success"), ("Err", "Error")):
                    rep.same("said to be reported", w, r.value, pred(lambda x, F, s=s: x.op == "adt" and x.a[1] == s, s), frozenset([yes(R, v)]), notes=r.notes)


# ---------------------------------------------------------------- wasm

JS_NAMES = {k: "DIDComm" + k for k in KINDS}


def wasm(ctx):
    c = _made.get("wasm")
    if c is None:
        c = _made["wasm"] = Ctx("wasm")
    note_use(ctx, c)
    return c


def imported(c):
    """functions wasm-bindgen makes: JavaScript's own, and objects handed to JavaScript"""
    out = []
    for ty, names in (("DIDResolver", ("resolve",)), ("SecretsResolver", ("get_secret", "find_secrets"))):
        for n in names:
            out += c.find_fn(n, ty)
    for k, i in enumerate(c.P.insts):
        if i.get("body") and i.get("local") and i["kind"] == "fn" and i.get("name") in ("from", "into"):
            s = i.get("self")
            s = c.P.tstr(s) if isinstance(s, int) else str(s)
            if s.split("::")[-1] == "JsValue":
                out.append(k)
    return tuple(out)


_kinds = []


def js_name(k):
    """the name JavaScript knows a kind by"""
    return mapalt(k, lambda x: S(JS_NAMES.get(x.a[1], "?")) if x.op == "adt" else alt([(frozenset([(isv(x, v, tuple(_kinds)), True)]), S(JS_NAMES[v])) for v in KINDS]))


def learn_kinds(c):
    """the kinds in the order the core crate declares them"""
    del _kinds[:]
    for p, a in c.P.adts.items():
        if p == KIND and a["kind"] == "enum":
            _kinds.extend(v["name"] if isinstance(v, dict) else v[0] for v in a["variants"])
    return bool(_kinds) and set(_kinds) == set(KINDS)


def unbox(x):
    """a conversion between JavaScript's types keeps the object"""
    while x.op == "app" and last(x.a[0]) in ("from", "into", "cut:from", "unchecked_into", "to_owned") and len(x.a[2]) == 1:
        x = x.a[2][0]
    return x


def js_error(rep, r, w, x, F, E=None):
    """x is a JavaScript error telling kind and text of an error of ours; that error"""
    o = unbox(x)
    if not (o.op == "app" and o.a[0].startswith("js_sys::") and last(o.a[0]) == "new" and "Error" in o.a[0]):
        rep.judge("failure told", w, False, "it fails with %s" % show(x, 300), x)
        return None
    t = o.a[2][0]
    shown = sorted(set(y for y in walk_all(t) if y.op == "app" and y.a[0] == "display"), key=show)
    if len(shown) != 1:
        rep.judge("failure told", w, False, "its text is %s" % show(t, 200), t)
        return None
    e = shown[0].a[2][0]
    named = [ev for ev in r.events if ev.kind == "call" and last(ev.name) == "set_name" and ev.args[0] is o]
    if len(named) != 1 or named[0].loops:
        rep.judge("failure named", w, False, "its error is named %d times" % len(named), x)
        return e
    left = ext(F, negfacts(named[0].F))
    if left is not None and any(True for _ in sat_cases(left)):
        rep.judge("failure named", w, False, "its error is not named when %s" % show(left, 400), *[a for a, _ in left])
        return e
    rep.same("failure named", w, named[0].args[1], js_name(field(e, "kind")), ext(named[0].F, F) or F, notes=r.notes)
    return e


def wasm_names(ctx, rep):
    """every kind of error has its name in JavaScript, and every such name its kind"""
    c = wasm(ctx)
    if not learn_kinds(c):
        rep.bad("names of kinds", "enum ErrorKind", "the kinds are %s" % ", ".join(_kinds))
        return
    x = sym("result")
    ks = c.find_fn("as_js", None, "JsResult")
    if not ks:
        rep.unk("names of kinds", "as_js", "not found")
    for k in ks[:1]:
        w = where(c, k)
        r = run(c, k, x)
        rep.same("success kept", w, r.value, pred(lambda s, F: s.op == "adt" and s.a[1] == "Ok" and s.a[3][0] is field(x, "0", "Ok"), "Ok"), frozenset([yes(x, "Ok")]), notes=r.notes)
        F = frozenset([yes(x, "Err")])
        for g, v in cases(r.value):
            e = ext(F, g)
            if e is None:
                continue
            if v.op != "adt" or v.a[1] != "Err":
                rep.judge("failure kept", w, False, "it gives %s" % show(v, 200), v)
                continue
            cause = js_error(rep, r, w, v.a[3][0], e)
            if cause is not None:
                rep.same("failure kept", w, cause, field(x, "0", "Err"), e, notes=r.notes)
    ks = c.find_fn("from_js", None, "FromJsResult")
    if not ks:
        rep.unk("kinds of names", "from_js", "not found")
    for k in ks[:1]:
        w = where(c, k)
        r = run(c, k, x)
        rep.same("success kept", w, r.value, pred(lambda s, F: s.op == "adt" and s.a[1] == "Ok" and s.a[3][0] is field(x, "0", "Ok"), "Ok"), frozenset([yes(x, "Ok")]), notes=r.notes)
        thrown(c, rep, w, r, r.value, field(x, "0", "Err"), frozenset([yes(x, "Err")]))


def name_of(a):
    """(what is compared, the name) if the term compares a JavaScript error's name with a name of ours"""
    if a.op != "eq":
        return None
    for x, y in (a.a, a.a[::-1]):
        if y.op == "c" and y.a[0] == "str" and not (x.op == "c"):
            if any(z.op == "app" and z.a[0].startswith("js_sys::") and last(z.a[0]) == "name" for z in walk_all(x)):
                return x, y.a[1]
    return None


def thrown(c, rep, w, r, value, what, F):
    """an error thrown by JavaScript has the kind of its name, InvalidState without one"""
    back = {v: k for k, v in JS_NAMES.items()}
    found = {}
    lost = []
    wrong = None
    n = 0
    for g, v in cases(simp(value, F)):
        e = ext(F, g)
        if e is None:
            continue
        if v.op != "adt" or v.a[1] != "Err":
            rep.judge("failure kept", w, False, "what JavaScript throws becomes %s" % show(v, 200), v)
            return
        kind = field(v.a[3][0], "kind")
        for h, kv in cases(simp(kind, e)):
            e2 = ext(e, h)
            if e2 is None:
                continue
            for G in sat_cases(e2):
                kx = simp(kv, G)
                if kx.op != "adt":
                    rep.judge("kinds of names", w, False, "the kind is %s" % show(kx, 200), kx)
                    return
                n += 1
                names = [(t, b) for a, b in G for t in (name_of(a),) if t]
                pos = sorted(set(t[1] for t, b in names if b))
                if len(pos) > 1:
                    continue
                want = back.get(pos[0], "InvalidState") if pos else "InvalidState"
                if pos:
                    found[pos[0]] = kx.a[1]
                    text = simp(field(v.a[3][0], "source"), G)
                    if not any(y.op == "app" and last(y.a[0]) in ("message", "to_string", "display") or y is what for y in walk_all(text)):
                        lost.append(text)
                if kx.a[1] != want and wrong is None:
                    wrong = (kx, G, want)
    if wrong:
        rep.judge("kinds of names", w, False, "the kind is %s where %s is required, when %s" % (wrong[0].a[1], wrong[2], show(wrong[1], 600)), value if not found else None)
    else:
        rep.ok("kinds of names", w)
    if lost:
        rep.judge("message kept", w, False, "the message is %s" % show(lost[0], 300), lost[0])
    else:
        rep.ok("message kept", w)
    if not found and not wrong:
        free = [field(v.a[3][0], "kind") for g, v in cases(simp(value, F)) if ext(F, g) is not None]
        if not any(contains(x, what) for x in free) and not any(contains(a, what) for x in free for g, y in cases(x) for a, b in g if a is not what and a.op != "is"):
            rep.judge("kinds of names", w, False, "the kind of what JavaScript throws is lost: it is %s" % show(free[0], 200) if free else "nothing is told", *free)
            return
    for k in KINDS:
        if k == "InvalidState":
            continue
        if JS_NAMES[k] in found:
            rep.ok("every name has its kind", w + ", " + JS_NAMES[k])
        elif not found:
            rep.unk("every name has its kind", w + ", " + JS_NAMES[k], "names are told apart by other means")
        else:
            rep.bad("every name has its kind", w + ", " + JS_NAMES[k], "an error of that name is not recognised")


def wasm_object(c, rep, rule, ty, what):
    """an object JavaScript made from a plain one: (object, the value of ours in it)"""
    k = the_fn(c, rep, rule, "new", ty)
    if k is None:
        return None, None
    plain = sym("plain")
    r = run(c, k, plain, cuts=imported(c))
    reads = [e for e in r.events if e.kind == "call" and last(e.name) == "into_serde"]
    w = where(c, k)
    if len(reads) != 1 or not contains(reads[0].args[0], plain) or reads[0].res is None:
        rep.unk(rule, w, "it is read by other means")
        return None, None
    p = reads[0].res
    obj = inner = None
    for g, v in cases(r.value):
        for C, good in (([yes(p, "Ok")], True), ([yes(p, "Err")], False)):
            e = ext(g, C)
            if e is None:
                continue
            if good:
                if v.op == "adt" and v.a[1] == "Ok" and [x for x in walk_all(v) if x is field(p, "0", "Ok")] and len(v.a[3]) == 1 and v.a[3][0].op == "adt" and len(v.a[3][0].a[3]) == 1 and v.a[3][0].a[3][0] is field(p, "0", "Ok"):
                    obj, inner = v.a[3][0], field(p, "0", "Ok")
                    rep.ok("made of what it was given", w)
                else:
                    rep.judge("made of what it was given", w, False, "it is %s" % show(v, 300), v)
            else:
                refused(c, rep, r, w, v, e, "Malformed")
    return obj, inner


def refused(c, rep, r, w, v, F, kind=None, error=None):
    """a failure told to JavaScript: of that kind, or that very error"""
    if v.op != "adt" or v.a[1] != "Err":
        rep.judge("failure told", w, False, "it succeeds with %s when %s" % (show(v, 200), show(F, 400)), v)
        return
    for g, x in cases(simp(v.a[3][0], F)):
        G = ext(F, g)
        if G is None:
            continue
        e = js_error(rep, r, w, x, G)
        if e is None:
            continue
        if error is not None:
            rep.same("failure told", w, e, error, G, notes=r.notes)
        elif kind is not None:
            rep.same("failure told", w, field(e, "kind"), adt(KIND, kind, (), ()), G, notes=r.notes)
        else:
            rep.ok("failure told", w)


# operation -> (type, name, parameters, core operation, its type, arguments, what success tells: "text", "json" or an object's type, by place in the core's answer)
WASM = [
    ("Message", "pack_plaintext", ("self", "did"), "pack_plaintext", "Message", ("self", "did"), "text"),
    ("Message", "pack_signed", ("self", "sign_by", "did", "secrets"), "pack_signed", "Message", ("self", "sign_by", "did", "secrets"), ("text", "json")),
    ("Message", "pack_encrypted", ("self", "to", "from", "sign_by", "did", "secrets", "options"), "pack_encrypted", "Message",
     ("self", "to", "from", "sign_by", "did", "secrets", "options"), ("text", "json")),
    ("Message", "unpack", ("msg", "did", "secrets", "options"), "unpack", "Message", ("msg", "did", "secrets", "options"), ("Message", "json")),
    ("Message", "wrap_in_forward", ("msg", "headers", "to", "routing_keys", "enc_alg_anon", "did"), "wrap_in_forward", None,
     ("msg", "=headers", "to", "routing_keys", "enc_alg_anon", "did"), "text"),
    ("FromPrior", "pack", ("self", "issuer_kid", "did", "secrets"), "pack", "FromPrior", ("self", "issuer_kid", "did", "secrets"), ("text", "text")),
    ("FromPrior", "unpack", ("jwt", "did"), "unpack", "FromPrior", ("jwt", "did"), ("FromPrior", "text")),
]


def wasm_operations(ctx, rep):
    """each operation asks the core operation of that name once, with what it was given, and its promise settles as that does"""
    c = wasm(ctx)
    if not learn_kinds(c):
        rep.unk("operation", "enum ErrorKind", "the kinds are %s" % ", ".join(_kinds))
        return
    objs = {}
    for ty in ("Message", "FromPrior"):
        objs[ty] = wasm_object(c, rep, "made of what it was given", ty, None)
        plain_again(c, rep, ty, objs[ty])
    for ty, name, params, core, owner, want, told in WASM:
        k = the_fn(c, rep, "operation", name, ty)
        if k is None:
            continue
        w = where(c, k)
        obj, inner = objs[ty]
        if "self" in params and obj is None:
            rep.unk("operation", w, "its object is not understood")
            continue
        args = [obj if p == "self" else sym(USER[p]) if p in USER else sym(p) for p in params]
        r = run(c, k, *args, cuts=imported(c))
        v = r.value
        if not (v.op == "app" and v.a[0] == "promise"):
            rep.unk("operation", w, "it gives %s" % show(v, 200))
            continue
        P = v.a[2][0]
        settled(c, rep, r, w, P, core, owner, params, want, told, inner)


def reads_of(r, params):
    """the parameters read from plain JavaScript values: name -> the result of reading it"""
    out = {}
    for e in r.events:
        if e.kind == "call" and last(e.name) == "into_serde" and e.args and e.args[0].op == "sym" and e.args[0].a[0] in params and e.res is not None:
            out[e.args[0].a[0]] = e.res
    return out


def settled(c, rep, r, w, P, core, owner, params, want, told, inner):
    reads = reads_of(r, params)

    def given(n):
        if n == "self":
            return inner
        return field(reads[n], "0", "Ok") if n in reads else sym(n)
    read = [yes(reads[n], "Ok") for n in params if n in reads]
    operation(c, rep, r, w, core, owner, want, None, given, read)
    evs = core_calls(r, core, owner)
    if not evs or evs[0].res is None or len(set(e.res for e in evs)) > 1:
        return
    R = evs[0].res
    for n in sorted(reads):
        for g, v in cases(P):
            e = ext(g, [yes(reads[n], "Err")])
            if e is not None:
                refused(c, rep, r, w, v, e, "Malformed")
    for g, v in cases(P):
        e = ext(g, read + [yes(R, "Err")])
        if e is not None:
            refused(c, rep, r, w, v, e, error=field(R, "0", "Err"))
        e = ext(g, read + [yes(R, "Ok")])
        if e is not None:
            for G in sat_cases(e):
                success(c, rep, r, w, simp(v, G), G, field(R, "0", "Ok"), told)
    no_panics(rep, r, w)


def success(c, rep, r, w, v, F, got, told):
    """the promise holds what the core gave"""
    ser = [ev for ev in r.events if ev.kind == "call" and last(ev.name) == "from_serde" and ev.res is not None]
    if v.op == "adt" and v.a[1] == "Err":
        if any(yes(ev.res, "Err") in F for ev in ser):
            refused(c, rep, r, w, v, F)
        else:
            rep.judge("result handed on", w, False, "it fails with %s though the operation succeeds" % show(v, 200), v)
        return
    if v.op != "adt" or v.a[1] != "Ok":
        rep.judge("result handed on", w, False, "it gives %s" % show(v, 200), v)
        return
    x = v.a[3][0]
    if isinstance(told, str):
        part(c, rep, r, w, x, got, told, F, ser)
        return
    Gs = [F]
    for ev in r.events:
        if ev.kind == "call" and ev.args and ev.args[0] is unbox(x) and not ev.loops:
            Gs = [g for G in Gs for H in (ext(G, ev.F), ext(G, negfacts(ev.F))) if H is not None for g in sat_cases(H)]
    for G in Gs:
        pair(c, rep, r, w, simp(x, G), G, got, told, ser)


def pair(c, rep, r, w, x, F, got, told, ser):
    xs = array(r, x, F)
    if xs is None:
        rep.unk("result handed on", w, "it gives %s" % show(x, 200))
        return
    if len(xs) != len(told) or any(i not in xs for i in range(len(told))):
        rep.judge("result handed on", w, False, "it gives an array with the places %s" % sorted(xs))
        return
    for n, t in enumerate(told):
        part(c, rep, r, "%s, part %d" % (w, n + 1), xs[n], field(got, str(n)), t, F, ser)


def array(r, x, F):
    """the members of a JavaScript array, by place"""
    o = unbox(x)
    if o.op != "app" or not o.a[0].startswith("js_sys::"):
        return None
    name = last(o.a[0])
    if name.startswith("of") and name[2:].isdigit():
        return dict(enumerate(o.a[2]))
    out = {}
    for ev in r.events:
        if ev.kind != "call" or not ev.args or ev.args[0] is not o or not ev.name.startswith("js_sys::"):
            continue
        m = last(ev.name)
        if ev.loops:
            return None
        if ext(ev.F, F) is None:
            continue
        if m == "set" and ev.args[1].op == "c":
            out[int(ev.args[1].a[1])] = ev.args[2]
        elif m == "push":
            out[(max(out) + 1) if out else 0] = ev.args[1]
        elif m not in ("from", "into", "length"):
            return None
    return out


def part(c, rep, r, w, x, got, kind, F, ser):
    x = unbox(simp(x, F))
    if kind == "text":
        # a text made into JavaScript's is that text
        while x.op == "app" and last(x.a[0]) in ("from_str", "from", "into") and len(x.a[2]) == 1:
            x = x.a[2][0]
        rep.same("result handed on", w, x, got, F, notes=r.notes)
    elif kind == "json":
        mine = [ev for ev in ser if field(ev.res, "0", "Ok") is x]
        if not mine:
            rep.judge("result handed on", w, False, "it gives %s" % show(x, 300), x)
        else:
            rep.same("result handed on", w, mine[0].args[0], got, F, notes=r.notes)
    else:
        while x.op == "app" and x.a[0].startswith("cut:") and len(x.a[2]) == 1:
            x = x.a[2][0]
        good = x.op == "adt" and last(x.a[0]) == kind and len(x.a[3]) == 1
        if not good:
            rep.judge("result handed on", w, False, "it gives %s" % show(x, 300), x)
        else:
            rep.same("result handed on", w, x.a[3][0], got, F, notes=r.notes)


def plain_again(c, rep, ty, oi):
    """an object is given back to JavaScript as the plain value it stands for"""
    obj, inner = oi
    k = the_fn(c, rep, "plain value", "as_value", ty)
    if k is None or obj is None:
        return
    w = where(c, k)
    r = run(c, k, obj, cuts=imported(c))
    ser = [ev for ev in r.events if ev.kind == "call" and last(ev.name) == "from_serde" and ev.res is not None]
    if len(ser) != 1:
        rep.unk("plain value", w, "it is written by other means")
        return
    rep.same("plain value", w + ", the value written", ser[0].args[0], inner, notes=r.notes)
    for g, v in cases(r.value):
        e = ext(g, [yes(ser[0].res, "Ok")])
        if e is not None:
            rep.same("plain value", w, v, ok(field(ser[0].res, "0", "Ok")), e, notes=r.notes)
        e = ext(g, [yes(ser[0].res, "Err")])
        if e is not None:
            refused(c, rep, r, w, v, e, "Malformed")


def wasm_forwards(ctx, rep):
    """recognising a forward message"""
    c = wasm(ctx)
    if not learn_kinds(c):
        rep.unk("forward recognised", "enum ErrorKind", "the kinds are %s" % ", ".join(_kinds))
        return
    obj, inner = wasm_object(c, rep, "made of what it was given", "Message", None)
    k = the_fn(c, rep, "forward recognised", "try_parse_forward", "Message")
    if k is None or obj is None:
        return
    w = where(c, k)
    r = run(c, k, obj, cuts=imported(c))
    operation(c, rep, r, w, "try_parse_forward", None, ("self",), None, lambda n: inner)
    evs = core_calls(r, "try_parse_forward", None)
    ser = [ev for ev in r.events if ev.kind == "call" and last(ev.name) == "from_serde" and ev.res is not None]
    if len(evs) != 1 or len(ser) != 1 or evs[0].res is None:
        rep.unk("forward recognised", w, "it is written by other means")
        return
    rep.same("forward recognised", w + ", the value written", ser[0].args[0], evs[0].res, notes=r.notes)
    for g, v in cases(r.value):
        e = ext(g, [yes(ser[0].res, "Ok")])
        if e is not None:
            rep.same("forward recognised", w, v, ok(field(ser[0].res, "0", "Ok")), e, notes=r.notes)
        e = ext(g, [yes(ser[0].res, "Err")])
        if e is not None:
            refused(c, rep, r, w, v, e, "Malformed")


def wasm_resolvers(ctx, rep):
    """the core crate's questions reach JavaScript's resolver, its answers come back as they are"""
    c = wasm(ctx)
    if not learn_kinds(c):
        rep.unk("resolver asked", "enum ErrorKind", "the kinds are %s" % ", ".join(_kinds))
        return
    cuts = imported(c)
    k = the_fn(c, rep, "resolver asked", "unpack", "Message")
    found = {}
    if k is not None:
        r = run(c, k, sym("msg"), sym(USER["did"]), sym(USER["secrets"]), sym("options"), cuts=cuts)
        for a in adapters(c, r, None):
            for m, tr in (("resolve", "DIDResolver"), ("get_secret", "SecretsResolver"), ("find_secrets", "SecretsResolver")):
                ks = [q for q in c.find_fn(m, last(a.a[0]), tr) if (c.P.insts[q].get("trait") or "").startswith("didcomm::")]
                if ks:
                    found.setdefault(m, (ks[0], a))
    for m in ("resolve", "get_secret", "find_secrets"):
        if m not in found:
            rep.unk("resolver asked", "adapter of " + m, "no adapter is handed to the core crate")
            continue
        k, adapter = found[m]
        w = where(c, k)
        key = sym("asked")
        r = run(c, k, adapter, key, cuts=cuts)
        user = sym(USER["did" if m == "resolve" else "secrets"])
        calls = [e for e in r.events if e.kind == "cut" and e.args and e.args[0] is user]
        right = [e for e in calls if last(e.name) == m]
        if not exactly(rep, "resolver asked once", w, right, [], "asking the resolver"):
            continue
        if len(right) != 1 or len(calls) != 1 or right[0].res is None:
            rep.judge("resolver asked", w, False, "it calls %s" % ", ".join(last(e.name) for e in calls), *[a for e in calls for a in e.args])
            continue
        e = right[0]
        asked = e.args[1]
        if m == "find_secrets":
            asked = told_ids(asked)
            if asked is None:
                rep.judge("asked for what was asked", w, False, "it asks for %s" % show(e.args[1], 300), e.args[1])
                continue
        rep.same("asked for what was asked", w, asked, key, e.F, notes=r.notes)
        R = e.res
        # what it throws
        thrown(c, rep, w, r, r.value, field(R, "0", "Err"), frozenset([yes(R, "Err")]))
        # what it answers
        answer = field(R, "0", "Ok")
        for g, v in cases(r.value):
            f = ext(g, [yes(R, "Ok")])
            if f is None:
                continue
            for G in sat_cases(f):
                answered(rep, r, w, m, simp(v, G), G, answer, key)
        no_panics(rep, r, w)


def told_ids(x):
    """the list of texts an array of JavaScript texts was made of"""
    while x.op == "app" and last(x.a[0]) in ("collect", "from_iter", "from", "into") and len(x.a[2]) == 1:
        x = x.a[2][0]
    if x.op == "list" and len(x.a) == 1 and x.a[0].op == "comp":
        src, e, G, v = x.a[0].a
        v = unbox(v)
        while v.op == "app" and last(v.a[0]) in ("from_str", "from") and len(v.a[2]) == 1:
            v = v.a[2][0]
        if not G and v is e:
            return src
        return lst(comp(src, e, G, v))
    return None


def answered(rep, r, w, m, v, G, answer, key):
    readings = [e for e in r.events if e.kind == "call" and e.res is not None and last(e.name) in ("into_serde", "dyn_into", "dyn_ref") and e.args and e.args[0] is answer]
    if any(yes(e.res, "Err") in G for e in readings) or any((isv(e.res, "None", ("None", "Some")), True) in G for e in readings):
        good = v.op == "adt" and v.a[1] == "Err" and simp(field(v.a[3][0], "kind"), G).op == "adt" and simp(field(v.a[3][0], "kind"), G).a[1] in ("InvalidState", "Malformed")
        rep.judge("answer of another shape refused", w, good, "it gives %s" % show(v, 300), v)
        return
    if v.op != "adt" or v.a[1] != "Ok":
        rep.judge("answer handed back", w, False, "it fails with %s when %s" % (show(v, 200), show(G, 300)), v, *[a for a, _ in G])
        return
    x = v.a[3][0]
    if m != "find_secrets":
        mine = [e for e in readings if x is field(e.res, "0", "Ok")]
        rep.judge("answer handed back", w, bool(mine), "it gives %s" % show(x, 300), x)
        return
    # those of the ids asked for that the answer names, as asked
    if x.op == "list" and len(x.a) == 1 and x.a[0].op == "comp":
        src, e, H, y = x.a[0].a
        its = [f for f in H if f[0].op == "is" and f[0].a[0].op == "it"]
        if src is key and y is e and len(its) == 1 and all(f in its or f == (eq(e, its[0][0].a[0].a[0]), True) for f in H):
            a, b = its[0]
            if a.op == "is" and a.a[1] == "Some" and b and a.a[0].op == "it":
                ch = a.a[0].a[0]
                first = ch.a[1]
                L = ch.a[0]
                fs = list(first[2]) if isinstance(first, tuple) and len(first) == 3 else []
                named = contains(L, answer) and any(z.op == "app" and last(z.a[0]) == "as_string" for z in walk_all(L))
                if named and len(fs) == 1 and fs[0][1] and fs[0][0] is eq(first[1], e):
                    rep.ok("answer handed back", w)
                    return
        # an element of the answer that is text and is that id
        if src is key and y is e and len(its) == 1 and its[0][1] and its[0][0].a[0].op == "it":
            ch = its[0][0].a[0].a[0]
            first = ch.a[1]
            fs = first[2] if isinstance(first, tuple) and len(first) == 3 else ()

            def text_is(el, facts):
                t = [q for q, p in facts if p and q.op == "is" and q.a[1] == "Some" and q.a[0].op == "app" and last(q.a[0].a[0]) == "as_string" and q.a[0].a[2] == (el,)]
                return len(t) == 1 and set(facts) == {(t[0], True), (eq(field(t[0].a[0], "0", "Some"), e), True)}
            if contains(ch.a[0], answer) and ch.a[0] is not key and text_is(first[1], fs) and text_is(ch, [q for q in H if q not in its]):
                rep.ok("answer handed back", w)
                return
    whole = [a for a in walk_all(x) if a.op == "comp" and a.a[0] is key]
    if not whole or not contains(x, answer):
        rep.judge("answer handed back", w, False, "it gives %s" % show(x, 300))
        return
    for cm in whole:
        for a, b in cm.a[2]:
            if a.op == "is" and a.a[0].op == "it":
                ch = a.a[0].a[0]
                first = ch.a[1]
                fs = list(first[2]) if isinstance(first, tuple) and len(first) == 3 else []
                if contains(ch.a[0], answer) and not any(f[0].op == "eq" for f in fs):
                    rep.judge("answer handed back", w, False, "it keeps the ids for which %s" % show(frozenset(fs), 300))
                    return
    rep.unk("answer handed back", w, "it gives %s" % show(x, 300))
