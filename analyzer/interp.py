"""Abstract interpretation of the dumped MIR.

State = cells (frame, local) -> term, plus the set of facts that hold.  Blocks
are visited once in topological order; at a merge, facts are intersected (with
the differing parts kept as one disjunction) and differing cells become guarded
alternatives.  Loops are iterated until the set of changing cells is stable,
then the accumulated values are given closed forms over the iterated list.
Calls to functions of the crate are followed; calls that leave the crate are
recorded as events and modelled (models.py) or left uninterpreted."""

import json
from collections import defaultdict
from term import *
import term as TM


class Undecided(Exception):
    pass


class Unroll(Exception):
    """a loop goes over a list of known elements: run it round by round"""

    def __init__(self, key, n):
        self.key, self.n = key, n


class Fork(Exception):
    """a loop goes over one of several lists: analyse it for each"""

    def __init__(self, v, key):
        self.v, self.key = v, key


class Prog(object):
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.insts = d["insts"]
        self.adts = d["adts"]
        for p, a in self.adts.items():
            if a["kind"] == "enum":
                TM.ENUMS[p] = tuple(v["name"] for v in a["variants"])
                TM.VARIANTS.setdefault(p, TM.ENUMS[p])
        self.discr = {}
        self._scc = {}
        self._live = {}
        self._addr = {}

    def tstr(self, t):
        return self.types[t]["s"]

    def variants(self, t):
        ty = self.types[t]
        p = ty.get("path")
        if ty["k"] == "coroutine":
            return None
        if p is None:
            return None
        k = self.discr.get(p)
        if k is None:
            a = self.adts.get(p)
            if a is None:
                return None
            names = tuple(v["name"] for v in a["variants"])
            k = self.discr[p] = (names, {v["discr"]: v["name"] for v in a["variants"]})
        return k


def succs(bl):
    if bl is None:
        return ()
    t = bl[1]
    k = t[0]
    if k == "goto":
        return (t[1],)
    if k == "sw":
        return tuple(x[1] for x in t[2]) + ((t[3],) if t[3] is not None else ())
    if k == "assert":
        return (t[3],)
    if k == "call":
        return (t[4],) if t[4] is not None else ()
    return ()


def scc_order(nodes, entry, nxt):
    """strongly connected components reachable from entry, in topological order"""
    idx, low, st, on, out = {}, {}, [], set(), []
    n = 0
    work = [(entry, iter(nxt(entry)))]
    idx[entry] = low[entry] = n
    n += 1
    st.append(entry)
    on.add(entry)
    while work:
        v, it = work[-1]
        adv = False
        for w in it:
            if w not in nodes:
                continue
            if w not in idx:
                idx[w] = low[w] = n
                n += 1
                st.append(w)
                on.add(w)
                work.append((w, iter(nxt(w))))
                adv = True
                break
            elif w in on:
                low[v] = min(low[v], idx[w])
        if adv:
            continue
        work.pop()
        if work:
            u = work[-1][0]
            low[u] = min(low[u], low[v])
        if low[v] == idx[v]:
            c = []
            while True:
                w = st.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    out.reverse()
    return out


class St(object):
    __slots__ = ("mem", "own", "F")

    def __init__(self, mem, F):
        self.mem = mem
        self.own = set()
        self.F = F

    def copy(self):
        self.own = set()
        return St(dict(self.mem), self.F)

    def with_facts(self, F):
        s = self.copy()
        s.F = F
        return s

    def get(self, fid, l):
        fr = self.mem.get(fid)
        if fr is None:
            return None
        return fr.get(l)

    def put(self, fid, l, v):
        if fid not in self.own:
            self.mem[fid] = dict(self.mem.get(fid, ()))
            self.own.add(fid)
        self.mem[fid][l] = v

    def drop(self, fid):
        self.mem.pop(fid, None)
        self.own.discard(fid)


class Event(object):
    __slots__ = ("kind", "name", "args", "F", "span", "stack", "res", "targs", "inst", "n", "self_", "loops", "dest", "cond", "subject")

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.name, self.span)


class Frame(object):
    __slots__ = ("fid", "inst", "body", "stack", "span", "args")

    def __init__(self):
        self.args = ()


class Loop(object):
    __slots__ = ("head", "iters", "key", "used", "index", "guards", "rounds")

    def __init__(self):
        self.guards, self.iters, self.rounds = {}, {}, False


class Interp(object):
    MAXDEPTH = 60
    cuts = frozenset()
    tie = None           # the cell of an argument whose state each result is to be paired with
    tied = None
    debug = False

    def __init__(self, prog, models):
        self.P = prog
        self.models = models
        self.rec = True
        self.events = []
        self.loops = []
        self.whole = set()   # loops not to be run round by round
        self.taken = {}
        self.fids = {}
        self.nfid = 0
        self.peel = False    # keep the first rounds of a loop apart from the others
        self.phis = {}       # phi term -> (init, back value, list or None, elem)
        self.notes = []
        self.calls = 0
        self.stackn = []
        self.analysed = set()
        self.fresh_n = 0

    # -------------------------------------------------- entry

    def fid(self, *key):
        f = self.fids.get(key)
        if f is None:
            self.nfid += 1
            f = self.fids[key] = self.nfid
        return f

    def run_root(self, inst, args=None, F=EMPTY):
        """interpret a function from its own arguments; returns (value, state)"""
        i = self.P.insts[inst]
        b = i["body"]
        st = St({}, F)
        vals = []
        for k in range(1, b["argc"] + 1):
            name = b["names"].get(str(k)) or "arg%d" % k
            if args and name in args:
                v = args[name]
            elif args and k in args:
                v = args[k]
            else:
                v = sym(name)
            ty = self.P.types[b["locals"][k]]
            if ty["k"] == "ref" and ty.get("mut"):
                f0 = self.fid("root", name)
                st.put(f0, 0, v)
                v = mk("ptr", f0, 0, ())
            vals.append(v)
        r = self.call_inst(st, inst, vals, None, None)
        return r, st

    def await_(self, st, v, span=None):
        return self.poll(st, v, None, span)

    # -------------------------------------------------- memory

    def read_ptr(self, st, p):
        v = st.get(p.a[0], p.a[1])
        if v is None:
            return mk("undef")
        for (var, n) in p.a[2]:
            v = self.step_in(st, v, var, n)
        return simp(v, st.F)

    def step_in(self, st, v, var, n):
        v = simp(v, st.F)
        if v.op == "ptr":
            v = self.read_ptr(st, v)
        if n == "*":
            return v
        if var == "idx":
            return index(v, n)
        if var == "key":
            import models
            return field(models.map_lookup(v, n), "0", "Some")
        if isinstance(n, str) and n in ("pointer", "__pointer") and v.op != "adt":
            return v
        return field(v, n, var)

    def deref(self, st, v):
        """follow &mut pointers down to a value"""
        n = 0
        while n < 20:
            n += 1
            if v.op == "ptr":
                v = self.read_ptr(st, v)
            elif v.op == "alt" and any(w.op == "ptr" for _, w in v.a[0]):
                v = alt([(g, self.deref(st, w)) for g, w in v.a[0]])
            else:
                break
        return simp(v, st.F)

    def deep(self, st, v, d=0):
        """value with &mut pointers inside aggregates replaced by what they point to"""
        v = self.deref(st, v)
        if d > 6:
            return v
        if v.op == "adt" and any(x.op in ("ptr", "adt", "alt") for x in v.a[3]):
            vals = tuple(self.deep(st, x, d + 1) for x in v.a[3])
            if vals != v.a[3]:
                return mk("adt", v.a[0], v.a[1], v.a[2], vals)
        return v

    def write_ptr(self, st, p, val):
        if p.op == "alt":
            ways = []
            for g, w in p.a[0]:
                e = ext(st.F, g) if st.F is not None else None
                if e is not None:
                    ways.append((g, w, e))
                    if w.op != "ptr":
                        self.notes.append(("wild-write", show(w)[:200]))
            F = st.F
            for cell in dict.fromkeys((w.a[0], w.a[1]) for _, w, _ in ways if w.op == "ptr"):
                cur, out = st.get(*cell), []
                for g, w, e in ways:
                    if w.op == "ptr" and (w.a[0], w.a[1]) == cell:
                        st.F = e
                        out.append((g, self.set_path(st, cur, w.a[2], val)))
                    else:
                        out.append((g, cur if cur is not None else mk("undef")))
                st.F = F
                st.put(cell[0], cell[1], alt(out))
            return
        if p.op != "ptr":
            self.notes.append(("wild-write", show(p)[:200]))
            return
        cur = st.get(p.a[0], p.a[1])
        st.put(p.a[0], p.a[1], self.set_path(st, cur, p.a[2], val))

    def set_path(self, st, cur, path, val):
        if not path:
            return val
        if cur is None:
            cur = mk("undef")
        cur = simp(cur, st.F)
        (var, n), rest = path[0], path[1:]
        if var == "idx":
            inner = self.set_path(st, index(cur, n), rest, val)
            return set_index(cur, n, inner)
        if var == "key":
            import models
            inner = val if not rest else self.set_path(st, field(models.map_lookup(cur, n), "0", "Some"), rest, val)
            return models.map_put(cur, n, inner)
        if n in ("pointer", "__pointer") and cur.op != "adt":
            return self.set_path(st, cur, rest, val)
        inner = self.set_path(st, field(cur, n, var), rest, val)
        return with_field(cur, n, var, inner)

    def lvalue(self, st, fr, place):
        """the cell and path a place denotes, as a ptr term (None: not a known cell)"""
        l, projs = place
        base = mk("ptr", fr.fid, l, ())
        var = None
        for p in projs:
            k = p[0]
            if k == "*":
                v = self.read_ptr(st, base)
                if v.op == "ptr":
                    base = v
                elif v.op == "alt" and any(w.op == "ptr" for _, w in v.a[0]):
                    return v
                var = None
            elif k == "v":
                var = p[1]
            elif k == "f":
                if base.op != "ptr":
                    return None
                base = mk("ptr", base.a[0], base.a[1], base.a[2] + ((var, p[1]),))
                var = None
            elif k == "i":
                iv = simp(st.get(fr.fid, p[1]), st.F)
                base = mk("ptr", base.a[0], base.a[1], base.a[2] + (("idx", iv),))
            elif k == "ci":
                iv = C("int", p[1]) if not p[3] else mk("fromend", C("int", p[1]))
                base = mk("ptr", base.a[0], base.a[1], base.a[2] + (("idx", iv),))
            else:
                return None
        return base

    def read_place(self, st, fr, place):
        l, projs = place
        v = st.get(fr.fid, l)
        if v is None:
            v = mk("undef")
        v = simp(v, st.F)
        var = None
        for p in projs:
            k = p[0]
            if k == "*":
                if v.op == "ptr":
                    v = self.read_ptr(st, v)
                elif v.op == "alt" and any(w.op == "ptr" for _, w in v.a[0]):
                    v = alt([(g, self.read_ptr(st, w) if w.op == "ptr" else w) for g, w in v.a[0]])
                continue
            if v.op == "ptr":
                v = self.read_ptr(st, v)
            if k == "v":
                var = p[1]
                continue
            if k == "f":
                v = self.step_in(st, v, var, p[1])
                var = None
            elif k == "i":
                v = index(v, simp(st.get(fr.fid, p[1]), st.F))
            elif k == "ci":
                if p[3]:
                    v = mk("idx", v, mk("fromend", C("int", p[1])))
                else:
                    v = index(v, C("int", p[1]))
            elif k == "ss":
                v = mk("slice", v, C("int", p[1]), mk("fromend", C("int", p[2])) if p[3] else C("int", p[2]))
            v = simp(v, st.F)
        return v

    def write_place(self, st, fr, place, val):
        l, projs = place
        if not projs:
            if l == 0 and self.tie is not None and len(self.stackn) == 1:
                # the result of the root goes together with what the tied argument holds at that point
                val = mk("tied", val, st.get(self.tie, 0))
            st.put(fr.fid, l, val)
            return
        p = self.lvalue(st, fr, place)
        if p is None:
            self.notes.append(("wild-write", str(place)))
            return
        self.write_ptr(st, p, val)

    # -------------------------------------------------- constants

    def const(self, k):
        if "fn" in k:
            f = k["fn"]
            if f.get("inst") is not None:
                return C("fn", f["inst"])
            return mk("fnref", f["path"])
        v = k.get("v")
        if v is None:
            if "def" in k:
                return C("const", k["def"])
            t = self.P.types[k["t"]] if k.get("t") is not None else {"s": "?"}
            if t["s"] == "()":
                return UNIT
            return C("const", "?" + t["s"])
        return self.cval(v)

    def cval(self, v):
        if v is None:
            return C("const", "?")
        if "str" in v:
            return S(v["str"])
        if "bytes" in v:
            return C("bytes", tuple(x if x is not None else -1 for x in v["bytes"]))
        if "int" in v:
            return C("int", int(v["int"]))
        if "bool" in v:
            return B(v["bool"])
        if "char" in v:
            return C("char", v["char"])
        if "static" in v:
            return C("static", v["static"])
        if "agg" in v:
            ty = self.P.types[v["agg"]]
            vals = [self.cval(x) for x in v["fields"]]
            if ty["k"] == "array":
                return lst(*[one(x) for x in vals])
            if ty["k"] == "tuple":
                return tup(*vals) if vals else UNIT
            if ty["k"] == "closure":
                return mk("clo", ty["inst"], ())
            return adt(ty.get("path", ty["s"]), v["var"], v["names"], vals)
        return C("const", json.dumps(v))

    def operand(self, st, fr, o):
        if o[0] == "p":
            return self.read_place(st, fr, o[1])
        return self.const(o[1])

    # -------------------------------------------------- rvalues

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow"):
            if r[1] == "mut":
                p = self.lvalue(st, fr, r[2])
                if p is None:
                    return self.read_place(st, fr, r[2])
                return p
            return self.read_place(st, fr, r[2])
        if k == "agg":
            kind, ty = r[1], self.P.types[r[2]]
            vals = tuple(self.operand(st, fr, o) for o in r[5])
            if kind == "array":
                return lst(*[one(v) for v in vals])
            if kind == "tuple":
                return tup(*vals) if vals else UNIT
            if kind in ("closure", "coroutine"):
                return mk("clo", ty["inst"], vals)
            p = ty.get("path", ty["s"])
            if p == "core::pin::Pin" and len(vals) == 1:
                return vals[0]
            return adt(p, r[3], r[4], vals)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] in ("IntToInt", "IntToFloat", "FloatToInt") and v.op != "c":
                if v.op == "discr":
                    return v
                return mk("app", "as " + self.P.tstr(r[3]), (), (v,))
            return v
        if k == "bin":
            return binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v.op in ("app", "len") or (v.op == "c" and v.a[0] == "int"):
                    t = None
                return notb(v)
            if r[1] == "PtrMetadata":
                return length(v)
            return mk("app", "un" + r[1], (), (v,))
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            v = self.deref(st, v)
            vs = self.P.variants(r[2])
            if vs is None:
                return mk("discr", v, ())
            return mk("discr", v, vs[0], tuple(sorted(vs[1].items())))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return mk("app", "repeat", (), (v, C("int", r[2]) if r[2] is not None else C("const", "?n")))
        if k == "tls":
            return C("static", r[1])
        return mk("app", "rv:" + str(r[1])[:60], (), ())

    # -------------------------------------------------- joins

    def join(self, sts, live=None):
        """merge states; live = (fid, set of live locals) limits the frame's own cells"""
        if live is not None:
            fid, ls = live
            for s in sts:
                fr = s.mem.get(fid)
                if fr and any(l not in ls for l in fr):
                    s.mem[fid] = {l: v for l, v in fr.items() if l in ls}
                    s.own.add(fid)
        if len(sts) == 1:
            return sts[0]
        Fs = [s.F for s in sts]
        if len(set(Fs)) == 1:
            common = Fs[0]
            gs = [EMPTY for _ in sts]
            F = common
        else:
            common = frozenset.intersection(*Fs)
            gs = [f - common for f in Fs]
            F = common | mk_or(gs)
        mem = {}
        fids = {}
        for s in sts:
            for f in s.mem:
                fids[f] = 1
        for f in fids:
            ds = [s.mem.get(f) for s in sts]
            if any(d is None for d in ds):
                ds = [d if d is not None else {} for d in ds]
            d0 = ds[0]
            if all(d is d0 for d in ds):
                mem[f] = d0
                continue
            out = {}
            keys = {}
            for d in ds:
                for l in d:
                    keys[l] = 1
            for l in keys:
                vs = [d.get(l) for d in ds]
                v0 = vs[0]
                if v0 is not None and all(v is v0 for v in vs):
                    out[l] = v0
                    continue
                cs = [(g, v) for g, v in zip(gs, vs) if v is not None]
                v = alt(cs)
                out[l] = v
            mem[f] = out
        r = St(mem, F)
        return r

    # -------------------------------------------------- function bodies

    def liveness(self, inst):
        r = self.P._live.get(inst)
        if r is not None:
            return r
        b = self.P.insts[inst]["body"]
        bl = b["blocks"]
        addr = set()
        use, kill = [], []

        def op(o, u):
            if o[0] == "p":
                pl(o[1], u)

        def pl(p, u):
            u.append(p[0])
            for q in p[1]:
                if q[0] == "i":
                    u.append(q[1])
        for blk in bl:
            u, k = set(), set()
            if blk is not None:
                def seen(us, ks):
                    for x in us:
                        if x not in k:
                            u.add(x)
                    for x in ks:
                        k.add(x)
                for s in blk[0]:
                    us, ks = [], []
                    if s[0] == "=":
                        r_ = s[2]
                        if r_[0] == "use" or r_[0] == "repeat":
                            op(r_[1], us)
                        elif r_[0] in ("ref", "reborrow"):
                            pl(r_[2], us)
                            if r_[1] == "mut":
                                addr.add(r_[2][0])
                        elif r_[0] == "agg":
                            for o in r_[5]:
                                op(o, us)
                        elif r_[0] == "cast":
                            op(r_[2], us)
                        elif r_[0] == "bin":
                            op(r_[2], us)
                            op(r_[3], us)
                        elif r_[0] == "un":
                            op(r_[2], us)
                        elif r_[0] == "discr":
                            pl(r_[1], us)
                        if s[1][1]:
                            pl(s[1], us)
                        else:
                            ks.append(s[1][0])
                    else:
                        pl(s[1], us)
                    seen(us, ks)
                t = blk[1]
                us, ks = [], []
                if t[0] == "sw":
                    op(t[1], us)
                elif t[0] == "assert":
                    op(t[1], us)
                    for o in t[4][1:]:
                        if isinstance(o, list):
                            op(o, us)
                elif t[0] == "call":
                    if "dyn" in t[1]:
                        op(t[1]["dyn"], us)
                    for o in t[2]:
                        op(o, us)
                    if t[3][1]:
                        pl(t[3], us)
                    else:
                        ks.append(t[3][0])
                elif t[0] == "ret":
                    us.append(0)
                seen(us, ks)
            use.append(u)
            kill.append(k)
        n = len(bl)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                for s in succs(bl[i]):
                    new = live[s] - kill[i] - live[i]
                    if new:
                        live[i] |= new
                        ch = True
        res = [frozenset(l | addr) for l in live]
        self.P._live[inst] = res
        return res

    def call_inst(self, st, inst, args, fr, span):
        """interpret one function on argument values; st is updated in place; returns the value or None"""
        i = self.P.insts[inst]
        b = i["body"]
        parent = fr.fid if fr is not None else 0
        if inst in self.cuts and self.stackn:
            r = self.opaque(st, "cut:" + i["name"], tuple(self.P.tstr(a) for a in i["args"] if isinstance(a, int)), args)
            self.event(st, fr, "cut", i["name"], r.a[2], span, r, r.a[1], inst, None, None)
            return r
        if self.stackn.count(inst) > 1 or len(self.stackn) > self.MAXDEPTH:
            self.notes.append(("recursion", i["path"]))
            return self.opaque(st, i["path"], (), args)
        self.calls += 1
        fid = self.fid(parent, inst, span, len(self.stackn))
        f = Frame()
        f.fid = fid
        f.inst = inst
        f.body = b
        f.stack = (fr.stack if fr is not None else ()) + ((i["path"], span),)
        f.args = args
        st.drop(fid)
        st.put(fid, -1, UNIT)
        for k, v in enumerate(args):
            st.put(fid, k + 1, v)
        if i.get("local"):
            self.analysed.add(i["path"])
        self.stackn.append(inst)
        try:
            nodes = frozenset(k for k, x in enumerate(b["blocks"]) if x is not None)
            outs = self.region(f, nodes, 0, st.copy(), None)
        finally:
            self.stackn.pop()
        rets = [s for (_, d, s) in outs if d == "ret"]
        if not rets:
            if self.debug:
                print("DEAD", i["path"], span, [show(a)[:300] for a in args], [e for e in self.events[-3:]])
            st.F = None
            return None
        r = self.join(rets, (fid, frozenset([0])))
        v = r.get(fid, 0)
        if self.tie is not None and not self.stackn and v is not None:
            v = simp(v, r.F)
            self.tied = v
            v = alt([(g, x.a[0] if x.op == "tied" else x) for g, x in cases(v)])
        r.drop(fid)
        st.mem, st.own, st.F = r.mem, r.own, r.F
        return simp(v, st.F) if v is not None else UNIT

    def region(self, fr, nodes, entry, st, back):
        bl = fr.body["blocks"]
        key = (fr.inst, nodes, entry, back)
        order = self.P._scc.get(key)
        if order is None:
            if back is None:
                nxt = lambda v: succs(bl[v])
            else:
                nxt = lambda v: [w for w in succs(bl[v]) if w != back]
            order = []
            for c in scc_order(nodes, entry, nxt):
                cyc = len(c) > 1 or c[0] in nxt(c[0])
                order.append((frozenset(c), cyc))
            self.P._scc[key] = order
        live = self.liveness(fr.inst)
        inc = defaultdict(list)
        inc[entry].append(st)
        outs = []

        def emit(src, dst, s):
            if dst in nodes and dst != back:
                inc[dst].append(s)
            else:
                outs.append((src, dst, s))
        for comp_, cyc in order:
            if not cyc:
                b, = comp_
                ss = inc.pop(b, None)
                if not ss:
                    continue
                s = self.join(ss, (fr.fid, live[b]))
                n0 = len(outs)
                res = self.block(fr, b, s)
                if self.debug and not res and fr.body["blocks"][b][1][0] in ("call", "sw") and (fr.body["blocks"][b][1][0] == "sw" or fr.body["blocks"][b][1][4] is not None):
                    print("DEADBLOCK", fr.stack[-1], b, str(fr.body["blocks"][b][1])[:300], self.rec)
                for dst, s2 in res:
                    emit(b, dst, s2)
            else:
                heads = [h for h in comp_ if h in inc]
                if not heads:
                    continue
                if len(heads) > 1:
                    raise Undecided("irreducible loop in " + self.P.insts[fr.inst]["path"])
                h = heads[0]
                s = self.join(inc.pop(h), (fr.fid, live[h]))

                def body(s0, comp_=comp_, h=h):
                    return self.region(fr, comp_, h, s0, h)
                for src, dst, s2 in self.forked((fr.fid, h), body, h, s):
                    emit(src, dst, s2)
        return outs

    # -------------------------------------------------- blocks

    def block(self, fr, b, st):
        stmts, t = fr.body["blocks"][b]
        for s in stmts:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                self.write_place(st, fr, s[1], v)
            else:
                p = self.lvalue(st, fr, s[1])
                if p is not None and p.op == "ptr":
                    cur = self.read_ptr(st, p)
                    if not (cur.op == "adt" and cur.a[1] == s[2]):
                        self.write_ptr(st, p, mk("app", "setd", (s[2],), (cur,)))
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "sw":
            return self.switch(fr, st, t)
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if t[4][0] == "overflow":
                if t[4][1] == "Sub" and v.op == "app" and v.a[0] == "overflow":
                    x, y = v.a[2]
                    if not (x.op == "c" and y.op == "c"):
                        self.can_panic(st, fr, "subtraction", x, (y,), notb(binop("Lt", x, y)), t[5])
                return [(t[3], st)]
            if t[4][0] == "bounds":
                self.can_panic(st, fr, "index", self.operand(st, fr, t[4][1]), (self.operand(st, fr, t[4][2]),), v, t[5])
            else:
                self.event(st, fr, "panic", "assert:" + str(t[4][1])[:40], (v,), t[5])
            F = assume(st.F, v, bool(t[2]))
            if F is None:
                return []
            st.F = F
            return [(t[3], st)]
        if k == "call":
            return self.do_call(fr, st, t)
        return []

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        v = self.deref(st, v)
        out = []
        ty = self.P.types[t[4]]
        if v.op == "discr":
            x = v.a[0]
            vs = v.a[1]
            dm = dict(v.a[2]) if len(v.a) > 2 else {}
            rest = list(vs)
            for val, dst in t[2]:
                name = dm.get(val)
                if name is None:
                    continue
                rest.remove(name)
                F = assume(st.F, isv(x, name, vs), True)
                if F is not None:
                    out.append((dst, st.with_facts(F)))
            if t[3] is not None and rest:
                cs = []
                for name in rest:
                    cs.extend(cases_bool(isv(x, name, vs), True))
                F = assume_cases(st.F, cs)
                if F is not None:
                    out.append((t[3], st.with_facts(F)))
            return self.merge_dst(out)
        if ty["k"] == "bool":
            seen = set()
            for val, dst in t[2]:
                bv = val != "0"
                seen.add(bv)
                F = assume(st.F, v, bv)
                if F is not None:
                    out.append((dst, st.with_facts(F)))
            for bv in (True, False):
                if bv not in seen:
                    F = assume(st.F, v, bv)
                    if F is not None:
                        out.append((t[3], st.with_facts(F)))
            return self.merge_dst(out)
        Fo = st.F
        for val, dst in t[2]:
            if ty["k"] == "char":
                c = C("char", chr(int(val)))
            else:
                c = C("int", int(val))
            e = eq(v, c)
            F = assume(st.F, e, True)
            if F is not None:
                out.append((dst, st.with_facts(F)))
            if Fo is not None:
                Fo = assume(Fo, e, False)
        if Fo is not None and t[3] is not None:
            out.append((t[3], st.with_facts(Fo)))
        return self.merge_dst(out)

    def merge_dst(self, out):
        return out

    # -------------------------------------------------- events

    def can_panic(self, st, fr, name, subject, args, cond, span):
        """a place that panics unless cond holds"""
        e = self.event(st, fr, "panic", name, (subject,) + tuple(args) + ((cond,) if cond is not None else ()), span)
        if e is not None:
            e.cond, e.subject = cond, self.deep(st, subject)

    def event(self, st, fr, kind, name, args, span, res=None, targs=(), inst=None, self_=None, dest=None):
        if not self.rec:
            return None
        e = Event()
        e.kind, e.name, e.F, e.span, e.res, e.targs, e.inst, e.self_ = kind, name, st.F, span, res, targs, inst, self_
        e.args = tuple(self.deep(st, a) for a in args)
        e.stack = fr.stack if fr is not None else ()
        e.n = len(self.events)
        e.loops = tuple(l.key for l in self.loops)
        e.dest = dest
        e.cond = e.subject = None
        self.events.append(e)
        return e

    # -------------------------------------------------- calls

    def do_call(self, fr, st, t):
        _, callee, aops, dest, target, dty, span = t
        args = [self.operand(st, fr, o) for o in aops]
        if "dyn" in callee:
            f = self.operand(st, fr, callee["dyn"])
            r = self.call_value(st, fr, f, args, span)
        else:
            r = self.call_path(st, fr, callee, args, dty, span)
        if target is None or r is None or st.F is None:
            return []
        self.write_place(st, fr, dest, simp(r, st.F))
        return [(target, st)]

    def call_path(self, st, fr, callee, args, dty, span):
        inst = callee.get("inst")
        i = self.P.insts[inst] if inst is not None else None
        path = i["path"] if i is not None else callee["path"]
        m = self.models.find(callee["path"], path, i)
        if m is not None:
            c = Call()
            c.ip, c.st, c.fr, c.callee, c.inst, c.i, c.dty, c.span, c.path, c.gpath = self, st, fr, callee, inst, i, dty, span, path, callee["path"]
            r = m(c, args)
            if r is not NotImplemented:
                return r
        if i is not None:
            if i["kind"] == "ctor":
                return self.ctor(i, args)
            if i.get("body"):
                if i["kind"] in ("closure", "coroutine") and "body" in i and self.rust_call(callee):
                    return self.call_closure_args(st, fr, args, span)
                return self.call_inst(st, inst, args, fr, span)
        c = Call()
        c.ip, c.st, c.fr, c.callee, c.inst, c.i, c.dty, c.span, c.path, c.gpath = self, st, fr, callee, inst, i, dty, span, path, callee["path"]
        return c.external(args)

    def rust_call(self, callee):
        return callee["path"] in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                                  "core::ops::function::Fn::call")

    def ctor(self, i, args):
        return adt(i["adt"], i["variant"], [str(k) for k in range(len(args))], args)

    def call_closure_args(self, st, fr, args, span):
        tupv = self.deref(st, args[1]) if len(args) > 1 else UNIT
        if tupv.op == "adt":
            xs = list(tupv.a[3])
        else:
            xs = [field(tupv, "0")]
        return self.call_value(st, fr, args[0], xs, span)

    def call_value(self, st, fr, f, args, span):
        """call a closure, function item or unknown callable"""
        f = self.deref(st, f)
        if f.op == "clo":
            i = self.P.insts[f.a[0]]
            if not i.get("body"):
                return self.opaque(st, i["path"], (), [f] + list(args))
            if i["kind"] == "coroutine":
                return self.call_inst(st, f.a[0], [f] + list(args), fr, span)
            return self.call_inst(st, f.a[0], [f] + list(args), fr, span)
        if f.op == "c" and f.a[0] == "fn":
            i = self.P.insts[f.a[1]]
            return self.call_path(st, fr, {"path": i["path"], "inst": f.a[1], "args": i["args"]}, list(args), None, span)
        if f.op == "alt":
            outs = []
            for g, w in f.a[0]:
                F = ext(st.F, g)
                if F is None:
                    continue
                s2 = st.with_facts(F)
                r = self.call_value(s2, fr, w, args, span)
                if r is not None and s2.F is not None:
                    s2.put(0, "callv", r)
                    outs.append(s2)
            if not outs:
                st.F = None
                return None
            j = self.join(outs)
            r = j.get(0, "callv")
            j.drop(0)
            st.mem, st.own, st.F = j.mem, j.own, j.F
            return r
        vals = [self.deep(st, a) for a in args]
        self.event(st, fr, "callv", show(f), [f] + vals, span)
        return mk("app", "call", (), (f,) + tuple(vals))

    def opaque(self, st, path, targs, args):
        vals = tuple(self.deep(st, a) for a in args)
        r = mk("app", path, targs, vals)
        for k, a in enumerate(args):
            if a.op == "ptr":
                self.write_ptr(st, a, mk("app", "out%d:" % k + path, targs, vals))
        return r

    def poll(self, st, v, fr, span):
        """value of awaiting v"""
        v = self.deref(st, v)
        n = 0
        while v.op == "adt" and len(v.a[3]) == 1 and n < 5:
            v = self.deref(st, v.a[3][0])
            n += 1
        if v.op == "clo":
            i = self.P.insts[v.a[0]]
            if i.get("body"):
                return self.call_inst(st, v.a[0], [v, UNIT], fr, span)
        if v.op == "alt":
            outs = []
            for g, w in v.a[0]:
                F = ext(st.F, g)
                if F is None:
                    continue
                s2 = st.with_facts(F)
                r = self.poll(s2, w, fr, span)
                if r is not None and s2.F is not None:
                    s2.put(0, "callv", r)
                    outs.append(s2)
            if not outs:
                st.F = None
                return None
            j = self.join(outs)
            r = j.get(0, "callv")
            j.drop(0)
            st.mem, st.own, st.F = j.mem, j.own, j.F
            return r
        return v

    # -------------------------------------------------- loops

    def forked(self, key, body, h, s0):
        depth, rec = len(self.loops), self.rec
        try:
            return self.loop(key, body, h, s0)
        except Unroll as u:
            del self.loops[depth:]
            self.rec = rec
            if u.key != key:
                raise
            out, left = self.unrolled(key, body, h, s0, u.n)
            if left is not None:
                self.whole.add(key)
                # the rounds so far and any number of further ones, or any number from the start
                out = out + self.forked(key, body, h, left) if self.peel else self.forked(key, body, h, s0)
            return out
        except Fork as f:
            if f.key != key:
                raise
            out = []
            for k, (g, w) in enumerate(cases(f.v)):
                F = ext(s0.F, g)
                if F is not None:
                    self.taken[key + (k,)] = w
                    out += self.forked(key + (k,), body, h, s0.with_facts(F))
            return out

    def unrolled(self, key, body, h, s0, n):
        s, exits = s0, []
        for _ in range(n + 2):
            L = Loop()
            L.head, L.key, L.rounds = s.copy(), key, True
            self.loops.append(L)
            try:
                outs = body(s.copy())
            finally:
                self.loops.pop()
            exits += [(a, d, x) for a, d, x in outs if d != h]
            backs = [x for _, d, x in outs if d == h]
            if not backs:
                return exits, None
            s = self.join(backs)
        return exits, s

    def loop(self, key, body, h, s0, ctr=None):
        """body(state) -> [(src, dst, state)], edges to h are back edges.  ctr: {cell: list} index variables that count over a list"""
        saved = self.rec
        pre = {}
        idxs = {}
        for k, X in (ctr or {}).items():
            e = elem_for(s0.F, X)
            pre[mk("it", e)] = (X, e)
            idxs[k] = (mk("app", "pos", (), (e,)), X)
        phis = {}       # (fid, local, path) -> term standing for the value at the head
        L = None
        F0 = s0.F
        pk = (key, len(self.loops))
        for it in range(14):
            head = s0.copy()
            for (fid, l, path), p in phis.items():
                head.put(fid, l, self.set_path(head, head.get(fid, l), path, p))
            for (fid, l, path), (p, _) in idxs.items():
                head.put(fid, l, self.set_path(head, head.get(fid, l), path, p))
            L = Loop()
            L.head = head
            L.iters = dict(pre)
            L.key = key
            self.rec = False
            self.loops.append(L)
            try:
                outs = body(head.copy())
            finally:
                self.loops.pop()
                self.rec = saved
            backs = [s for (_, d, s) in outs if d == h]
            if not backs:
                break
            bk = self.join([s.copy() for s in backs])
            new = {}
            for fid, cells in head.mem.items():
                bc = bk.mem.get(fid)
                if bc is None or bc is cells:
                    continue
                for l, old in cells.items():
                    nv = bc.get(l)
                    if nv is None or nv is old:
                        continue
                    self.widen(old, simp(nv, bk.F), (), (fid, l), phis, new, pk, bk, L)
            for k in idxs:
                new.pop(k, None)
            # a coarser phi replaces finer ones
            if not new:
                break
            for k in list(phis):
                for n in new:
                    if n != k and n[0] == k[0] and n[1] == k[1] and k[2][:len(n[2])] == n[2]:
                        phis.pop(k, None)
            phis.update(new)
        else:
            raise Undecided("loop does not stabilise in " + str(key))
        if ctr is None and backs:
            found = self.counters(phis, s0, bk, outs)
            if found:
                return self.loop(key, body, h, s0, found)
        if ctr is None and backs and not L.iters and key not in self.whole:
            raise Unroll(key, 1)         # not over a list: it may still end after a round or two, by what the body makes of its state
        if saved:
            self.loops.append(L)
            L2 = Loop()
            L2.head, L2.iters, L2.key = L.head, dict(pre), L.key
            self.loops[-1] = L2
            try:
                outs = body(L.head.copy())
            finally:
                self.loops.pop()
            L = L2
        backs = [s for (_, d, s) in outs if d == h]
        exits = [(a, d, s) for (a, d, s) in outs if d != h]
        if not backs:
            # never more than one round; none at all only if there may be no element
            full = [itt for itt, x in L.iters.items() if x[0].op == "list" and any(y.op == "one" for y in x[0].a)]
            return [(a, d, s) for (a, d, s) in exits if not any((mk("is", itt, "None", ONCE), True) in s.F for itt in full)]
        bk = self.join([s.copy() for s in backs])
        iters = list(L.iters.items())      # it-term -> (list, elem term)
        B = bk.F - F0
        res = []
        info = {}
        for (fid, l, path), p in phis.items():
            if p.op != "phi":
                continue
            init = s0.get(fid, l)
            nv = bk.get(fid, l)
            for (var, n) in path:
                init = self.step_in(s0, init, var, n) if init is not None else None
                nv = self.step_in(bk, nv, var, n) if nv is not None else None
            if init is None or nv is None:
                continue
            info[p] = (init, simp(nv, bk.F))
            self.phis[p] = (init, info[p][1], iters[0][1] if len(iters) == 1 else None, F0, bk.F)
        done_all = {}
        for (src, dst, s) in exits:
            hit = None
            for itt, (lsrc, e) in iters:
                if (mk("is", itt, "None", ONCE), True) in s.F:
                    hit = (itt, lsrc, e)
            if hit and len(iters) == 1:
                for (fid, l, path), (p, X) in idxs.items():
                    if p.a[2][0] is hit[2]:
                        s = s.copy()
                        s.put(fid, l, self.set_path(s, s.get(fid, l), path, length(X)))
                res.append((src, dst, self.exhausted(s, hit, B, info, F0, L.guards.get(hit[0], EMPTY))))
            else:
                res.append((src, dst, self.broken(s, iters, F0, info)))
        return res

    def counters(self, phis, s0, bk, outs):
        """index variables that start at 0, grow by one each round and are compared with the length of an unchanging list"""
        res = {}
        ps = frozenset(p for p in phis.values())
        for (fid, l, path), p in phis.items():
            init, nv = s0.get(fid, l), bk.get(fid, l)
            for (var, n) in path:
                init = self.step_in(s0, init, var, n) if init is not None else None
                nv = self.step_in(bk, nv, var, n) if nv is not None else None
            if init is not C("int", 0) or nv is None:
                continue
            nv = simp(nv, bk.F)
            if nv is not binop("Add", p, C("int", 1)):
                continue
            Xs = set()
            for _, _, s in outs:
                for f, _ in s.F:
                    if p not in f.lv:
                        continue
                    if f.op in ("lt", "eq") and f.a[0] is p and f.a[1].op == "len":
                        Xs.add(f.a[1].a[0])
                    elif f.op == "eq" and f.a[1] is p and f.a[0].op == "len":
                        Xs.add(f.a[0].a[0])
            Xs = [X for X in Xs if not (X.lv & ps)]
            if len(Xs) == 1:
                res[(fid, l, path)] = Xs[0]
        return res

    def widen(self, old, new, path, cell, phis, out, pk, bk, L):
        if old is new:
            return
        k = cell + (path,)
        if k in phis:
            return
        if new.op == "ptr" or old.op == "ptr":
            out[k] = mk("phi", pk, cell, path)
            return
        if old.op == "adt" and new.op == "adt" and old.a[:3] == new.a[:3] and old.a[3]:
            for n, a, b in zip(old.a[2], old.a[3], new.a[3]):
                var = old.a[1] if old.a[0] in VARIANTS else None
                self.widen(a, b, path + ((var, n),), cell, phis, out, pk, bk, L)
            return
        # members written one by one in a structure that is otherwise unknown
        ks = written(old, new)
        if ks:
            for var, n in ks:
                self.widen(field(old, n, var), mapalt(new, lambda w: field(w, n, var)), path + ((var, n),), cell, phis, out, pk, bk, L)
            return
        # counter of an index loop
        if old.op == "c" and old.a[0] == "int" and old.a[1] == 0:
            p = mk("phi", pk, cell, path)
            out[k] = p
            return
        out[k] = mk("phi", pk, cell, path)

    def exhausted(self, s, hit, B, info, F0, given=EMPTY):
        """state on leaving a loop because its iterator is used up"""
        itt, src, e = hit
        ph = set(info)
        keep = set()
        for f in B:
            if f[0].op == "is" and f[0].a[0] is itt:
                continue
            if f[0].lv & ph or f in given:
                continue
            keep.add(f)
        m = {}
        inn = (mk("is", itt, "Some", ONCE), True)
        for p, (init, nv) in info.items():
            m[p] = closed(p, init, nv, src, e, inn, ph, given)
        dn = (mk("is", itt, "None", ONCE), True)
        F = s.F - {dn}
        F = frozenset(f for f in F if f in F0 or not (e in f[0].lv or itt in f[0].lv)) if e.op == "elem" else F
        if m:
            F = subst_facts(F, m)
            if F is None:
                F = F0
        if keep:
            g = ext(F, forall(src, e, keep, given))
            F = g if g is not None else F
        r = s.copy()
        r.F = F
        mm = dict(m)
        if mm:
            ks = frozenset(mm)
            memo = {}
            for fid, cells in list(r.mem.items()):
                ch = {}
                for l, v in cells.items():
                    if v.lv & ks:
                        ch[l] = subst(v, mm, memo)
                if ch:
                    for l, v in ch.items():
                        r.put(fid, l, v)
        return r

    def broken(self, s, iters, F0, info):
        """state on leaving a loop early: the element at hand is the first one for which the exit condition holds"""
        m = {}
        for itt, (src, e) in iters:
            if e.op != "elem" or (mk("is", itt, "Some", ONCE), True) not in s.F:
                continue
            G = frozenset(f for f in s.F - F0 if e in f[0].lv)
            ne = chosen("first", src, e, G)
            m[e] = ne
            m[itt] = mk("it", ne)
        if not m:
            return s
        r = s.copy()
        memo = {}
        F = subst_facts(s.F - F0, m, memo)
        F = ext(F0, F) if F is not None else None
        if F is None:
            return s
        r.F = F
        ks = frozenset(x for x in m if x.op == "elem")
        for fid, cells in list(r.mem.items()):
            for l, v in list(cells.items()):
                if v.lv & ks:
                    r.put(fid, l, subst(v, m, memo))
        return r


class Call(object):
    __slots__ = ("ip", "st", "fr", "callee", "inst", "i", "dty", "span", "path", "gpath")

    def val(self, a):
        return self.ip.deref(self.st, a)

    def deep(self, a):
        return self.ip.deep(self.st, a)

    def set(self, p, v):
        self.ip.write_ptr(self.st, p, v)

    def tname(self, k=0):
        a = self.callee.get("args") or ()
        return self.ip.P.tstr(a[k]) if k < len(a) else ""

    def dtype(self):
        return self.ip.P.types[self.dty] if self.dty is not None else None

    def external(self, args, name=None, targs=None, outs=True):
        """an uninterpreted call: same inputs, same result"""
        ip, st = self.ip, self.st
        vals = tuple(ip.deep(st, a) for a in args)
        name = name or self.gpath
        if targs is None:
            targs = tuple(ip.P.tstr(a) for a in self.callee.get("args") or ())
        for a in vals:
            if a.op == "clo":
                self.probe(a)
        if self.loops_now():
            pass
        r = mk("app", name, targs, vals)
        ip.event(st, self.fr, "call", name, vals, self.span, r, targs, self.inst, None, self.dty)
        if outs:
            for k, a in enumerate(args):
                if a.op == "ptr":
                    ip.write_ptr(st, a, mk("app", "out%d:" % k + name, targs, vals))
        return r

    def loops_now(self):
        return self.ip.loops

    def probe(self, clo):
        """a closure handed to an unmodelled callee: analyse it on unknown arguments"""
        i = self.ip.P.insts[clo.a[0]]
        b = i.get("body")
        if not b or i["kind"] == "coroutine":
            return
        s2 = self.st.copy()
        args = [mk("sym", "%s#%d" % (i["path"], k)) for k in range(2, b["argc"] + 1)]
        self.ip.call_value(s2, self.fr, clo, args, self.span)

    def apply(self, f, args, extra=()):
        """result of a closure under extra facts, as a list of (facts, value); effects on memory are dropped"""
        s2 = self.st.copy()
        F = ext(self.st.F, extra)
        if F is None:
            return BOT, self.st.F
        s2.F = F
        r = self.ip.call_value(s2, self.fr, f, args, self.span)
        if r is None or s2.F is None:
            return BOT, F
        return r, s2.F


# ------------------------------------------------------------ helpers

def set_index(v, i, val):
    if v.op == "list" and i.op == "c" and all(s.op == "one" for s in v.a):
        n = int(i.a[1])
        if n < len(v.a):
            return mk("list", *(v.a[:n] + (one(val),) + v.a[n + 1:]))
    return mk("upd", v, ("idx", i), val)


def closed(p, init, nv, src, e, inn, ph, given=EMPTY):
    """value after the loop of a cell that starts as init and becomes nv (a term over p, e) each round"""
    # list accumulator
    got = append_form(p, nv)
    if got is not None:
        cs = got
        if not any(v.lv & ph or any(f[0].lv & ph for f in g) for g, v in cs):
            out = list(segs(init))
            cs = [(frozenset(f for f in g if f != inn) - given, v) for g, v in cs]
            if len(cs) == 1:
                out.append(comp(src, e, cs[0][0] | given, cs[0][1]))
            else:
                v = alt([(g, v) for g, v in cs])
                out.append(comp(src, e, mk_or([g for g, _ in cs]) | given, v))
            return lst(*out)
    # set on condition
    cs = cases(nv)
    keepc = [g for g, v in cs if v is p]
    setc = [(frozenset(f for f in g if f != inn), v) for g, v in cs if v is not p]
    if setc and not any(v.lv & ph or any(f[0].lv & ph for f in g) for g, v in setc):
        if not keepc and not given:
            return alt([(frozenset([(mk("empty", src), False)]) , alt([(g | {inn}, v) for g, v in setc])),
                        (frozenset([(mk("empty", src), True)]), init)])
        outs = []
        for g, v in setc:
            g = ext(g, given)
            if g is None:
                continue
            if e.op == "elem":
                le = chosen("last", src, e, g)
                m = {e: le}
                gg = subst_facts(g, m)
                if gg is None:
                    continue
                outs.append((gg | {(mk("is", mk("it", le), "Some", ONCE), True), exists_fact(src, e, g)}, subst(v, m)))
            else:
                outs.append((g, v))
        ks = [frozenset(f for f in g if f != inn and not (f[0].lv & ph)) - given for g in keepc]
        fk = mk_or(ks) if ks else frozenset([(FALSE, True)])
        outs.append((forall(src, e, fk, given), init))
        return alt(outs)
    if given:
        # an element the list's filter leaves out changes nothing
        nv = alt([(frozenset(given), nv), (mk_or([frozenset([(f, not b)]) for f, b in given]), p)])
    return mk("loopv", src, e, p, init, nv)


def written(old, new):
    """members in which the cases of new differ from old, when all are the same structure but for single members"""
    def strip(v):
        ch = {}
        while v.op == "upd" and len(v.a[1]) == 2 and v.a[1][0] != "idx":
            ch.setdefault(v.a[1], v.a[2])
            v = v.a[0]
        return v, ch
    olds = [(h,) + strip(y) for h, y in cases(old)]
    b = olds[0][1]
    if b.op not in ("sym", "f") or any(c is not b for _, c, _ in olds):
        return None
    ks = []
    for g, x in cases(new):
        c, ch = strip(x)
        if c is not b:
            return None
        for h, _, have in olds:
            if len(olds) > 1 and ext(g, h) is None:
                continue
            for k in list(ch) + list(have):
                if k not in ks and ch.get(k) is not have.get(k):
                    ks.append(k)
    return sorted(ks, key=str)


def append_form(p, nv):
    """[(facts, appended value)] when nv is p or p with one value appended"""
    out = []
    any_ = False
    for g, v in cases(nv):
        if v is p:
            continue
        if v.op == "list" and len(v.a) == 2 and v.a[0].op == "all" and v.a[0].a[0] is p and v.a[1].op == "one":
            out.append((g, v.a[1].a[0]))
            any_ = True
        else:
            return None
    return out if any_ else None


def binop(op, a, b):
    if op.endswith("WithOverflow"):
        return tup(binop(op[:-12], a, b), mk("app", "overflow", (), (a, b)))
    if op == "Eq":
        return cmp_eq(a, b)
    if op == "Ne":
        return notb(cmp_eq(a, b))
    if op == "Gt":
        return lt(b, a)
    if op == "Lt":
        return lt(a, b)
    if op == "Ge":
        return notb(lt(a, b))
    if op == "Le":
        return notb(lt(b, a))
    if op == "BitAnd":
        return and_(a, b) if boolish(a) and boolish(b) else mk("bin", op, a, b)
    if op == "BitOr":
        return or_(a, b) if boolish(a) and boolish(b) else mk("bin", op, a, b)
    if a.op == "c" and b.op == "c" and a.a[0] == "int" and b.a[0] == "int":
        x, y = a.a[1], b.a[1]
        try:
            v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y}[op.replace("Unchecked", "")]()
            return C("int", v)
        except (KeyError, ZeroDivisionError):
            pass
    for x, f in ((a, lambda w, o: binop(op, w, o)), (b, lambda w, o: binop(op, o, w))):
        if x.op == "alt" and any(w.op == "c" for _, w in x.a[0]):
            o = b if x is a else a
            return alt([(g, f(w, simp(o, g))) for g, w in x.a[0]])
    if op in ("Add", "Mul", "BitXor"):
        a, b = sorted((a, b))
    return mk("bin", op, a, b)


def boolish(v):
    if v.op == "c":
        return v.a[0] == "bool"
    if v.op in ("eq", "is", "not", "empty", "lt", "alt"):
        return True
    return v.op in ("app", "f", "sym")


def cmp_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "c" and x.a[0] == "bool":
            return y if x.a[1] else notb(y)
        if x.op == "discr" and y.op == "discr":
            vs = x.a[1]
            return eq_discr(x.a[0], y.a[0], vs)
    return eq(a, b)


def eq_discr(x, y, vs):
    cs = []
    for v in vs:
        cs.append((EMPTY, and_(isv(x, v, vs), isv(y, v, vs))))
    r = FALSE
    for _, c in cs:
        r = or_(r, c)
    return r


def elem_for(F, base):
    """element variable over base not yet in use"""
    used = set()
    for f in F:
        for x in f[0].lv:
            if x.op == "elem" and x.a[0] is base and isinstance(x.a[1], int):
                used.add(x.a[1])
    d = 0
    while d in used:
        d += 1
    return mk("elem", base, d)


def lt(a, b):
    if a.op == "alt":
        return alt([(g, lt(w, b)) for g, w in a.a[0]])
    if b.op == "alt":
        return alt([(g, lt(a, w)) for g, w in b.a[0]])
    if a.op == "c" and b.op == "c" and a.a[0] == "int" and b.a[0] == "int":
        return B(a.a[1] < b.a[1])
    if a.op == "c" and a.a[0] == "int" and a.a[1] == 0 and b.op == "len":
        return notb(empty(b.a[0]))
    if b.op == "c" and b.a[0] == "int" and b.a[1] == 1 and a.op == "len":
        return empty(a.a[0])
    if b.op == "c" and b.a[0] == "int" and b.a[1] == 0 and a.op == "len":
        return FALSE
    if a.op == "app" and a.a[0] == "pos" and b.op == "len":
        e = a.a[2][0]
        if e.op == "elem" and e.a[0] is b.a[0]:
            return mk("is", mk("it", e), "Some", ONCE)
    return mk("lt", a, b)
