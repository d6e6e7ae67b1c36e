"""Printing terms with their shared parts named once (for people)."""
from term import *
import term as TM


def kids(t):
    out = []
    def f(p):
        if isinstance(p, TM.T):
            out.append(p)
        elif isinstance(p, (tuple, frozenset, list)):
            for q in (sorted(p, key=lambda f: (f[0].n, f[1])) if isinstance(p, frozenset) and p and isinstance(next(iter(p)), tuple) and isinstance(next(iter(p))[0], TM.T) else p):
                f(q)
    for p in t.a:
        f(p)
    return out


def dag(*ts, limit=400, lines=400):
    count = {}
    order = []

    def visit(t):
        if t in count:
            count[t] += 1
            return
        count[t] = 1
        for k in kids(t):
            visit(k)
        order.append(t)
    for t in ts:
        visit(t)
    names = {}
    out = []

    def txt(t, top=False):
        if not top and t in names:
            return names[t]
        o, a = t.op, t.a
        if o == "c":
            return repr(a[1]) if a[0] == "str" else str(a[1])
        if o == "sym":
            return a[0]
        if o == "f":
            return txt(a[0]) + "." + (("%s." % a[1]) if a[1] else "") + a[2]
        if o == "adt":
            return (a[1] or a[0].split("::")[-1]) + ("{" + ", ".join("%s:%s" % (n, txt(v)) for n, v in zip(a[2], a[3])) + "}" if a[2] else "")
        if o == "app":
            return a[0].split("::")[-1] + ("<%s>" % ",".join(x.split("::")[-1] for x in a[1]) if a[1] else "") + "(" + ", ".join(txt(x) for x in a[2]) + ")"
        if o == "is":
            return txt(a[0]) + "?" + a[1]
        if o == "eq":
            return "(%s == %s)" % (txt(a[0]), txt(a[1]))
        if o == "not":
            return "!" + txt(a[0])
        return o + "(" + ", ".join(p(x) for x in a) + ")"

    def p(x):
        if isinstance(x, TM.T):
            return txt(x)
        if isinstance(x, frozenset):
            try:
                return "{" + ", ".join(("" if f[1] else "!") + txt(f[0]) for f in sorted(x, key=lambda f: (f[0].n, f[1]))) + "}"
            except Exception:
                return "{" + " | ".join(p(y) for y in x) + "}"
        if isinstance(x, tuple):
            return "(" + ", ".join(p(y) for y in x) + ")"
        return str(x)
    for t in order:
        s = txt(t, True)
        if (count[t] > 1 and len(s) > 12) or t.op in ("elem", "alt", "or") or len(s) > limit:
            names[t] = "$%d" % (len(names) + 1)
            out.append("%s := %s" % (names[t], s[:limit * 4]))
    for t in ts:
        out.append("=> " + txt(t, t not in names))
    return "\n".join(out[:lines])
