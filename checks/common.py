"""Helpers shared by the rules."""
from core import *
import wire


class Missing(Exception):
    pass


def the_fn(ctx, rep, rule, name, self_ty=None, trait=None, quiet=False):
    ks = ctx.find_fn(name, self_ty, trait)
    # one function may have been dumped for several type arguments
    paths = sorted(set(ctx.P.insts[k]["path"] for k in ks))
    if not ks:
        if not quiet:
            rep.bad(rule, ("%s::" % self_ty if self_ty else "") + name, "the function is gone")
        return None
    if len(paths) > 1 and self_ty is None:
        pub = [k for k in ks if ctx.P.insts[k].get("vis") == "pub"]
        if pub:
            return pub[0]
    return ks[0]


def where(ctx, k):
    return "fn " + ctx.P.insts[k]["path"]


def run(ctx, k, *args, **kw):
    return ctx.run(k, {n + 1: a for n, a in enumerate(args)}, **kw)


def member(v, path):
    for p in path.split("."):
        v = field(v, p)
    return v


def shape(ctx, names, hint=None, without=()):
    """the serialised type of the crate whose members come closest to the given wire names (having none of `without`)"""
    best = (0, None)
    want = set(names)
    for p, a in ctx.P.adts.items():
        if not a.get("local") or a["kind"] != "struct" or "::_::" in p or "::__" in p:
            continue
        if wire.derives(ctx, p, wire.DE) is None and wire.derives(ctx, p, wire.SER) is None:
            continue
        have = set()
        for f in wire.fields(ctx, p):
            have |= {f.rust, f.ser} | set(f.de)
        if have & set(without):
            continue
        n = len(set(f.rust for f in wire.fields(ctx, p)))
        hit = len(want & have)
        score = hit * 2.0 / (len(want) + n) + (0.3 if hint and p.endswith("::" + hint) else 0)
        if score > best[0]:
            best = (score, p)
    return best[1] if best[0] >= 0.5 else None
