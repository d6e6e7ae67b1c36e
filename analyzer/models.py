"""What calls that leave the crate mean to the analysis."""

import re
from term import *
from interp import lt, set_index, closed, Loop
import interp
import term as TM

OPT = ("None", "Some")

EXACT = {}
LAST2 = {}
LAST1 = {}


def norm(p):
    """path without generic arguments and impl wrappers"""
    out, depth = [], 0
    for ch in p:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return re.sub(r"::+", "::", "".join(out)).strip(":")


_norm = {}


def n2(p):
    r = _norm.get(p)
    if r is None:
        q = norm(p)
        parts = q.split("::")
        r = _norm[p] = ("::".join(parts[-2:]), parts[-1], parts[0])
    return r


def model(*names):
    def deco(f):
        for n in names:
            LAST2[n] = f
        return f
    return deco


def find(gpath, path, inst):
    local = inst is not None and inst.get("local")
    if gpath == "core::future::future::Future::poll":
        return LAST2["Future::poll"]
    if local and not inst.get("derived"):
        return None
    a, b, crate = n2(gpath)
    if crate == "didcomm" and not local and a in CORE:
        return CORE[a]
    if crate == "didcomm" or a in SKIP:
        if not (inst is not None and inst.get("derived")):
            return None
    f = LAST2.get(a)
    if f is not None:
        return f
    a2, b2, _ = n2(path)
    f = LAST2.get(a2)
    if f is not None:
        return f
    if not local and gpath.startswith(("alloc::slice::", "core::slice::")):
        return LAST2.get("slice::" + b)
    if not local and gpath.startswith(("core::str::", "alloc::str::")):
        return LAST2.get("str::" + b)
    if "Iterator" in gpath or "::iter::" in path:
        return LAST2.get("Iterator::" + b)
    return None


SKIP = set()

# functions of the core crate as a binding crate calls them (what they do is decided on the core crate itself, by D10)
CORE = {}

# ---------------------------------------------------------------- transparent

def ident(c, a):
    return a[0]


def identv(c, a):
    return c.val(a[0])


for n in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
          "Pin::new_unchecked", "Pin::new", "Box::new", "Box::pin", "Rc::new", "Arc::new", "Pin::as_mut", "Pin::get_mut",
          "Pin::get_unchecked_mut", "IntoFuture::into_future", "hint::must_use", "box_assume_init_into_vec_unsafe", "Rc::clone", "Arc::clone",
          "Vec::as_mut_slice", "Box::into_pin", "ManuallyDrop::new", "mem::transmute", "convert::identity", "hint::black_box",
          "by_ref", "Iterator::by_ref"):
    LAST2[n] = ident
for n in ("ToOwned::to_owned", "String::as_bytes", "String::as_str", "str::as_bytes", "slice::to_vec",
          "slice::iter", "Vec::as_slice", "String::into_bytes", "str::as_str", "str::to_owned", "str::to_string", "String::into_boxed_str",
          "IntoIterator::into_iter", "Iterator::cloned", "Iterator::copied", "Iterator::into_iter", "Vec::into_iter", "slice::into_vec", "str::into_string",
          "GenericArray::as_slice", "slice::as_ref", "Cow::into_owned", "Cow::to_mut", "slice::to_owned", "Vec::into_boxed_slice",
          "Iterator::peekable", "Iterator::fuse", "Vec::drain_all", "str::as_ref", "str::borrow", "Iterator::by_ref", "str::trim_ascii_none",
          "Cursor::new", "Cursor::into_inner", "Cursor::get_ref", "Vec::leak", "Arc::as_ref", "Rc::as_ref"):
    LAST2[n] = identv


@model("Clone::clone")
def clone(c, a):
    if c.i is not None and c.i.get("local") and not c.i.get("derived"):
        return NotImplemented
    return c.val(a[0])


@model("Iterator::by_ref")
def by_ref(c, a):
    return a[0]


@model("PartialEq::eq", "slice::eq")
def peq(c, a):
    if c.i is not None and c.i.get("local") and not c.i.get("derived"):
        return NotImplemented
    return eq(c.deep(a[0]), c.deep(a[1]))


@model("PartialEq::ne", "slice::ne")
def pne(c, a):
    if c.i is not None and c.i.get("local") and not c.i.get("derived"):
        return NotImplemented
    return notb(eq(c.deep(a[0]), c.deep(a[1])))


@model("str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def eqi(c, a):
    return mk("app", "eq_ignore_ascii_case", (), tuple(sorted((c.val(a[0]), c.val(a[1])))))


TEXTY = re.compile(r"^&?(mut )?(alloc::string::String|str|alloc::borrow::Cow<.*|alloc::boxed::Box<.*|alloc::vec::Vec<.*|\[.*\]|&.*|serde_json::value::Value|char|alloc::rc::Rc<.*|alloc::sync::Arc<.*)$")


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def conv(c, a):
    i = c.i
    if i is not None and i.get("body"):
        return NotImplemented
    if c.gpath.endswith(("try_from", "try_into")):
        return c.external(a)
    args = c.callee.get("args") or ()
    ts = [c.ip.P.tstr(t) for t in args]
    if len(ts) >= 2:
        dst, src = (ts[0], ts[1]) if c.gpath.endswith("from") else (ts[1], ts[0])
        if TEXTY.match(dst) and TEXTY.match(src):
            return c.val(a[0])
        if dst.startswith("anyhow::Error"):
            return mk("app", "anyhow::new", (), (c.deep(a[0]),))
        if dst.startswith("alloc::string::String"):
            return c.val(a[0])
        if dst == src:
            return a[0]
    return c.external(a)


@model("ToString::to_string", "string::to_string")
def to_string(c, a):
    v = c.deep(a[0])
    t = c.tname(0).lstrip("&")
    if t in ("alloc::string::String", "str") or t.startswith("alloc::borrow::Cow<"):
        return v
    return display(c, v, t)


def display(c, v, t):
    if v.op == "c" and v.a[0] in ("str", "char"):
        return S(v.a[1])
    if v.op == "c" and v.a[0] == "int":
        return S(str(v.a[1]))
    if v.op == "cat":
        return v
    t = t.lstrip("&")
    if t in ("alloc::string::String", "str", "char") or t.startswith("alloc::borrow::Cow<"):
        return v
    # a Display impl of the crate: interpreted with a recording formatter
    r = local_fmt(c, v, t, "core::fmt::Display")
    if r is not None:
        return r
    return mk("app", "display", (t,), (v,))


def local_fmt(c, v, t, trait):
    P = c.ip.P
    path = t.split("<")[0]
    key = ("fmtinst", trait)
    tab = getattr(P, "_fmt", None)
    if tab is None:
        tab = P._fmt = {}
        for k, i in enumerate(P.insts):
            if i.get("name") == "fmt" and i.get("local") and i.get("body") and i.get("trait") in ("core::fmt::Display", "core::fmt::Debug"):
                tab.setdefault((i["trait"], i["self"].split("<")[0]), k)
    k = tab.get((trait, path))
    if k is None or trait != "core::fmt::Display":
        return None
    if c.ip.stackn.count(k):
        return None
    s2 = c.st.copy()
    f0 = c.ip.fid("fmt", k, len(c.ip.stackn))
    s2.put(f0, 0, S(""))
    r = c.ip.call_inst(s2, k, [v, mk("ptr", f0, 0, ())], c.fr, c.span)
    if r is None or s2.F is None:
        return None
    return s2.get(f0, 0)


@model("Formatter::write_str", "Write::write_str", "Formatter::pad", "String::push_str", "str::push_str")
def write_str(c, a):
    cur = c.val(a[0])
    c.set(a[0], catv(cur, c.val(a[1])))
    if c.gpath.endswith("push_str"):
        return UNIT
    return ok(UNIT)


@model("String::push")
def push_char(c, a):
    cur = c.val(a[0])
    c.set(a[0], catv(cur, c.val(a[1])))
    return UNIT


def catv(x, y):
    if x.op == "list" and not x.a:
        x = S("")
    if x.op == "alt":
        return alt([(g, catv(w, y)) for g, w in x.a[0]])
    if y.op == "alt":
        return alt([(g, catv(x, w)) for g, w in y.a[0]])
    return cat([x, y])


@model("Add::add", "AddAssign::add_assign")
def add(c, a):
    x = c.val(a[0])
    r = catv(x, c.val(a[1]))
    if c.gpath.endswith("assign"):
        c.set(a[0], r)
        return UNIT
    return r


@model("Formatter::write_fmt", "Write::write_fmt")
def write_fmt(c, a):
    cur = c.val(a[0])
    c.set(a[0], catv(cur, c.val(a[1])))
    return ok(UNIT)


# format!

@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp")
def fmtarg(c, a):
    v = c.deep(a[0])
    t = c.tname(0)
    if c.gpath.endswith("new_display"):
        return mk("fmtarg", display(c, v, t))
    return mk("fmtarg", mk("app", n2(c.gpath)[1].replace("new_", "fmt_"), (t.lstrip("&"),), (v,)))


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def fmtargs(c, a):
    t = c.val(a[0])
    if t.op == "c" and t.a[0] == "str" and len(a) == 1:
        return t
    if len(a) == 2 and t.op == "c":
        bs = t.a[1].encode("utf-8", "surrogateescape") if t.a[0] == "str" else bytes(t.a[1])
        args = [s.a[0].a[0] if s.op == "one" and s.a[0].op == "fmtarg" else mk("unknown") for s in segs(c.val(a[1]))]
        r = template(bs, args)
        if r is not None:
            return r
    return mk("app", "fmt", (), tuple(c.deep(x) for x in a))


def template(bs, args):
    i, n, out = 0, 0, []
    try:
        while True:
            b = bs[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(S(bs[i:i + b].decode("utf-8", "replace")))
                i += b
            elif b == 0x80:
                k = bs[i] | bs[i + 1] << 8
                i += 2
                out.append(S(bs[i:i + k].decode("utf-8", "replace")))
                i += k
            else:
                opts = []
                if b & 1:
                    opts.append(("flags", int.from_bytes(bs[i:i + 4], "little")))
                    i += 4
                if b & 2:
                    opts.append(("width", int.from_bytes(bs[i:i + 2], "little")))
                    i += 2
                if b & 4:
                    opts.append(("prec", int.from_bytes(bs[i:i + 2], "little")))
                    i += 2
                if b & 8:
                    n = int.from_bytes(bs[i:i + 2], "little")
                    i += 2
                v = args[n]
                n += 1
                out.append(v)
    except IndexError:
        return None
    return TM.alt([(EMPTY, cat(out))]) if not any(o.op == "alt" for o in out) else catall(out)


def catall(parts):
    r = S("")
    for p in parts:
        r = catv(r, p)
    return r


@model("fmt::format")
def fmtformat(c, a):
    return c.val(a[0])


@model("Arguments::as_str")
def fmt_as_str(c, a):
    v = c.val(a[0])
    if v.op == "c":
        return some(v)
    return NONE


# ---------------------------------------------------------------- futures

@model("ThreadPool::spawn_ok")
def spawn_ok(c, a):
    """the task is run, some time"""
    c.ip.event(c.st, c.fr, "task", "spawn_ok", (), c.span)
    r = c.ip.poll(c.st, a[1], c.fr, c.span)
    return None if r is None else UNIT


@model("wasm_bindgen_futures::future_to_promise", "wasm_bindgen_futures::spawn_local")
def to_promise(c, a):
    c.ip.event(c.st, c.fr, "task", "promise", (), c.span)
    r = c.ip.poll(c.st, a[0], c.fr, c.span)
    if r is None:
        return None
    return mk("app", "promise", (), (c.ip.deep(c.st, r),))


@model("Future::poll")
def poll(c, a):
    r = c.ip.poll(c.st, a[0], c.fr, c.span)
    if r is None:
        return None
    return adt("core::task::poll::Poll", "Ready", ("0",), (r,))


@model("future::get_context")
def get_context(c, a):
    return UNIT


# ---------------------------------------------------------------- Vec / slices

@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "SecretBytes::with_capacity",
       "Default::default_vec", "HashSet::new", "BTreeSet::new", "iter::empty")
def vec_new(c, a):
    return lst()


@model("String::new", "String::with_capacity")
def str_new(c, a):
    return S("")


@model("Default::default")
def default(c, a):
    if c.i is not None and c.i.get("body"):
        return NotImplemented
    t = c.tname(0)
    if t.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque", "std::collections::hash::set")):
        return lst()
    if t.startswith("alloc::string::String"):
        return S("")
    if t.startswith(("std::collections::hash::map::HashMap<", "alloc::collections::btree::map::BTreeMap<", "serde_json::map::Map")):
        return mk("map", ())
    if t.startswith("core::option::Option<"):
        return NONE
    if t == "bool":
        return FALSE
    if t == "()":
        return UNIT
    return mk("app", "default", (t,), ())


@model("Box::new_uninit")
def new_uninit(c, a):
    return mk("uninit")


@model("box_assume_init_into_vec_unsafe", "boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def assume_init(c, a):
    v = c.val(a[0])
    n = 0
    while n < 4 and v.op == "upd":
        n += 1
        v = v.a[2]
    return v


@model("Vec::push", "VecDeque::push_back", "HashSet::insert", "BTreeSet::insert")
def vec_push(c, a):
    cur = c.val(a[0])
    v = c.deep(a[1]) if a[1].op == "ptr" else a[1]
    c.set(a[0], mapalt(cur, lambda w: lst(*(segs(w) + (one(v),)))))
    if c.gpath.endswith("insert"):
        return mk("app", "inserted", (), (cur, v))
    return UNIT


@model("Vec::insert")
def vec_insert(c, a):
    cur, i, v = c.val(a[0]), c.val(a[1]), c.deep(a[2])
    if i.op == "c" and i.a[1] == 0:
        c.set(a[0], mapalt(cur, lambda w: lst(one(v), *segs(w))))
    else:
        c.set(a[0], mk("app", "inserted_at", (), (cur, i, v)))
        c.ip.can_panic(c.st, c.fr, "Vec::insert", cur, (i,), notb(lt(length(cur), i)), c.span)
    return UNIT


@model("VecDeque::push_front")
def push_front(c, a):
    cur, v = c.val(a[0]), c.deep(a[1])
    c.set(a[0], mapalt(cur, lambda w: lst(one(v), *segs(w))))
    return UNIT


def tail(v):
    if v.op == "alt":
        return mapalt(v, tail)
    if v.op == "list" and v.a and v.a[0].op == "one":
        return lst(*v.a[1:])
    return mk("app", "tail", (), (v,))


def taken(v, n):
    """the first n elements of v"""
    if n is length(v):
        return v
    if n.op == "c" and n.a[1] == 0:
        return lst()
    if n is C("int", 1) and v.op != "alt":
        none = empty(v)
        return alt([(g, lst()) for g in cases_bool(none, True)] + [(g, lst(mk("one", index(v, C("int", 0))))) for g in cases_bool(none, False)])
    return mk("app", "take", (), (v, n))


def init_(v):
    if v.op == "alt":
        return mapalt(v, init_)
    if v.op == "list" and v.a and v.a[-1].op == "one":
        return lst(*v.a[:-1])
    return mk("app", "init", (), (v,))


@model("Vec::remove", "Vec::swap_remove")
def vec_remove(c, a):
    cur, i = c.val(a[0]), c.val(a[1])
    c.ip.can_panic(c.st, c.fr, "Vec::remove", cur, (i,), lt(i, length(cur)), c.span)
    F = assume(c.st.F, lt(i, length(cur)), True)
    if F is None:
        return None
    c.st.F = F
    cur = simp(cur, F)
    if i.op == "c" and i.a[1] == 0:
        c.set(a[0], tail(cur))
    else:
        c.set(a[0], mk("app", "without", (), (cur, i)))
    return index(cur, i)


def optcase(cond_empty, v):
    cs = [(g, v) for g in cases_bool(cond_empty, False)]
    cs += [(g, NONE) for g in cases_bool(cond_empty, True)]
    return alt([(g, some(v)) if w is not NONE else (g, NONE) for g, w in cs])


@model("Vec::pop", "VecDeque::pop_back")
def vec_pop(c, a):
    cur = c.val(a[0])
    r = optcase(empty(cur), last_of(cur))
    c.set(a[0], alt([(g, init_(cur)) for g in cases_bool(empty(cur), False)] + [(g, cur) for g in cases_bool(empty(cur), True)]))
    return r


@model("VecDeque::pop_front")
def pop_front(c, a):
    cur = c.val(a[0])
    r = optcase(empty(cur), index(cur, C("int", 0)))
    c.set(a[0], alt([(g, tail(cur)) for g in cases_bool(empty(cur), False)] + [(g, cur) for g in cases_bool(empty(cur), True)]))
    return r


@model("Vec::append", "Vec::extend", "Extend::extend", "Vec::extend_from_slice", "SecretBytes::extend_from_slice")
def vec_append(c, a):
    cur, other = c.val(a[0]), c.val(a[1])
    if cur.op == "map" or (other.op == "map"):
        c.set(a[0], mk("app", "extend", (), (cur, other)))
        return UNIT
    if cur.op == "c" and cur.a[0] == "str":
        c.set(a[0], mk("app", "extend", (), (cur, other)))
        return UNIT
    if other.op == "adt" and other.a[0] == OPTION:
        other = lst(one(other.a[3][0])) if other.a[1] == "Some" else lst()
    if other.op == "alt":
        other = alt([(g, (lst(one(w.a[3][0])) if w.a[1] == "Some" else lst()) if w.op == "adt" and w.a[0] == OPTION else w) for g, w in other.a[0]])
    def one_(w, o):
        return lst(*(segs(w) + segs(o)))
    r = mapalt(cur, lambda w: mapalt(other, lambda o: one_(w, o)))
    c.set(a[0], r)
    if n2(c.gpath)[1] == "append" and a[1].op == "ptr":
        c.set(a[1], lst())
    if n2(c.gpath)[0] == "SecretBytes::extend_from_slice":
        return ok(UNIT)
    return UNIT


@model("base64::decode_config_buf", "decode::decode_config_buf")
def decode_config_buf(c, a):
    """appends the decoded bytes to the buffer"""
    d = mk("app", "decode_config", (), (c.deep(a[0]), c.val(a[1])))
    cur = c.val(a[2])
    got = field(d, "0", "Ok")
    RES = ("Ok", "Err")
    yes, no = (isv(d, "Ok", RES), True), (isv(d, "Err", RES), True)
    c.set(a[2], alt([(frozenset([yes]), mapalt(cur, lambda w: lst(*(segs(w) + segs(got))))),
                     (frozenset([no]), mk("app", "partly_decoded", (), (cur, d)))]))
    return alt([(frozenset([yes]), ok(UNIT)), (frozenset([no]), err(field(d, "0", "Err")))])


@model("Vec::clear", "String::clear", "VecDeque::clear")
def vec_clear(c, a):
    c.set(a[0], lst() if "Vec" in c.gpath else S(""))
    return UNIT


@model("Vec::truncate", "Vec::resize", "Vec::retain", "Vec::dedup", "Vec::split_off", "Vec::drain", "Vec::dedup_by_key", "Vec::retain_mut")
def vec_misc(c, a):
    name = n2(c.gpath)[1]
    cur = c.val(a[0])
    vals = tuple(c.deep(x) for x in a[1:])
    if name == "retain":
        f = vals[0]
        r = listfilter(c, cur, f)
        c.set(a[0], r)
        return UNIT
    if name == "truncate" and vals[0].op == "c" and vals[0].a[1] == 0:
        c.set(a[0], lst())
        return UNIT
    if name == "drain" and vals and vals[0].op == "adt" and vals[0].a[0].endswith("RangeFull"):
        c.set(a[0], lst())
        return cur
    c.set(a[0], mk("app", "after_" + name, (), (cur,) + vals))
    if name in ("split_off", "drain"):
        c.ip.event(c.st, c.fr, "panic", "Vec::" + name, (cur,) + vals, c.span)
        return mk("app", name, (), (cur,) + vals)
    return UNIT


@model("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty", "VecDeque::is_empty", "HashMap::is_empty", "HashSet::is_empty",
       "BTreeMap::is_empty", "Map::is_empty", "ExactSizeIterator::is_empty")
def is_empty(c, a):
    return empty(c.val(a[0]))


@model("Vec::len", "slice::len", "String::len", "str::len", "VecDeque::len", "HashMap::len", "ExactSizeIterator::len", "Iterator::count", "HashSet::len",
       "BTreeMap::len", "Map::len", "Iterator::len")
def len_(c, a):
    return length(c.val(a[0]))


@model("slice::first", "slice::first_mut", "VecDeque::front")
def first(c, a):
    v = c.val(a[0])
    return optlist(v, lambda w: index(w, C("int", 0)))


def optlist(v, f):
    out = []
    for g, w in cases(v):
        e = empty(w)
        for h in cases_bool(e, False):
            k = ext(g, h)
            if k is not None:
                out.append((k, some(f(w))))
        for h in cases_bool(e, True):
            k = ext(g, h)
            if k is not None:
                out.append((k, NONE))
    return alt(out)


@model("slice::last", "slice::last_mut", "VecDeque::back", "Iterator::last")
def last(c, a):
    return optlist(c.val(a[0]), last_of)


@model("slice::split_first")
def split_first(c, a):
    return optlist(c.val(a[0]), lambda w: tup(index(w, C("int", 0)), tail(w)))


@model("slice::split_last")
def split_last(c, a):
    return optlist(c.val(a[0]), lambda w: tup(last_of(w), init_(w)))


@model("slice::get", "slice::get_mut", "str::get", "VecDeque::get")
def get(c, a):
    v, i = c.val(a[0]), c.val(a[1])
    if is_range(i):
        r = slice_(v, i)
        cond = range_ok(v, i)
    else:
        r = None
        cond = lt(i, length(v))
    return alt([(g, some(r if r is not None else index(v, i))) for g in cases_bool(cond, True)] + [(g, NONE) for g in cases_bool(cond, False)])


def is_range(i):
    return i.op == "adt" and "::Range" in i.a[0]


def range_parts(i):
    n = i.a[0].split("::")[-1]
    z = C("int", 0)
    if n == "RangeFrom":
        return field(i, "start"), None
    if n == "RangeTo":
        return z, field(i, "end")
    if n == "RangeFull":
        return z, None
    if n == "Range":
        return field(i, "start"), field(i, "end")
    if n == "RangeToInclusive":
        return z, mk("bin", "Add", field(i, "end"), C("int", 1))
    return field(i, "start"), mk("bin", "Add", field(i, "end"), C("int", 1))


def slice_(v, i):
    a, b = range_parts(i)
    return slice2(v, a, b)


def slice2(v, a, b):
    if a.op == "c" and a.a[1] == 0 and b is None:
        return v
    if v.op == "alt":
        return mapalt(v, lambda w: slice2(w, a, b))
    if v.op == "c" and v.a[0] in ("str", "bytes") and a.op == "c" and (b is None or b.op == "c"):
        x = v.a[1][a.a[1]:(b.a[1] if b is not None else None)]
        return C(v.a[0], x)
    if v.op == "list" and a.op == "c" and (b is None or b.op == "c") and all(s.op == "one" for s in v.a):
        return lst(*v.a[a.a[1]:(b.a[1] if b is not None else None)])
    if b is not None and b is a:
        return lst()
    if a.op == "c" and a.a[1] == 0 and b is not None and cut_place(v, b) and not cut_place(v, b)[1]:
        return field(field(cut_place(v, b)[0], "0", "Some"), "0")
    if b is None and cut_place(v, a) and cut_place(v, a)[1]:
        return field(field(cut_place(v, a)[0], "0", "Some"), "1")
    return mk("slice", v, a, b if b is not None else C("int", -1))


def range_ok(v, i):
    a, b = range_parts(i)
    n = length(v)
    if (cut_place(v, a) and b is None) or (a.op == "c" and a.a[1] == 0 and b is not None and cut_place(v, b)):
        return TRUE
    r = notb(lt(n, a)) if not (a.op == "c" and a.a[1] == 0) else TRUE
    if b is not None:
        r = and_(r, notb(lt(n, b)))
        if a.op == "c" and b.op == "c":
            pass
        elif not (a.op == "c" and a.a[1] == 0):
            r = and_(r, notb(lt(b, a)))
    return r


@model("Index::index", "IndexMut::index_mut")
def index_(c, a):
    v, i = c.val(a[0]), c.val(a[1])
    t = (c.tname(0) + " " + (c.i["self"] if c.i and c.i.get("self") else "")).lstrip("&")
    if "serde_json::value::Value" in t:
        if c.gpath.endswith("index_mut"):
            p = a[0]
            if p.op == "ptr":
                if v.op == "adt" and v.a[1] == "Object":
                    return mk("ptr", p.a[0], p.a[1], p.a[2] + (("Object", "0"), ("key", i)))
                return mk("ptr", p.a[0], p.a[1], p.a[2] + (("idx", i),))
        JN = TM.ENUMS.get("serde_json::value::Value")
        r = json_lookup(v, i) if JN and (i.op == "c" and i.a[0] == "str" or "str" in c.tname(1)) else None
        if r is not None:
            return mapalt(r, lambda w: w if w.op != "adt" else (field(w, "0", "Some") if w.a[1] == "Some" else adt("serde_json::value::Value", "Null", (), ()))) \
                if all(w.op == "adt" for _, w in cases(r)) else mk("app", "json_index", (), (v, i))
        return mk("app", "json_index", (), (v, i))
    if is_range(i):
        ks = range_parts(i)
        if ks[0].op == "len" and ks[1] is None:
            # what follows a prefix that is known to be there
            o = mk("app", "strip_prefix", (), (v, ks[0].a[0]))
            if (isv(o, "Some", OPT), True) in c.st.F:
                return field(o, "0", "Some")
        if v.op != "c" and re.match(r"(str|alloc::string::String|mut str|mut alloc::string::String)\b", t):
            for k in range_parts(i):
                if k is not None and not (k.op == "c" and k.a[1] == 0) and not cut_place(v, k):
                    c.ip.can_panic(c.st, c.fr, "char boundary", v, (k,), mk("app", "char_boundary", (), (v, k)), c.span)
        cond = range_ok(v, i)
        if cond is not TRUE:
            c.ip.can_panic(c.st, c.fr, "slice", v, (i,), cond, c.span)
            F = assume(c.st.F, cond, True)
            if F is None:
                return None
            c.st.F = F
            v = simp(v, F)
        return slice_(v, i)
    if "HashMap" in t or "BTreeMap" in t:
        c.ip.event(c.st, c.fr, "panic", "map-index", (v, i), c.span)
        return mk("app", "map_at", (), (v, i))
    cond = lt(i, length(v))
    if cond is not TRUE:
        c.ip.can_panic(c.st, c.fr, "index", v, (i,), cond, c.span)
        F = assume(c.st.F, cond, True)
        if F is None:
            return None
        c.st.F = F
        v = simp(v, F)
    if c.gpath.endswith("index_mut") and a[0].op == "ptr":
        p = a[0]
        return mk("ptr", p.a[0], p.a[1], p.a[2] + (("idx", i),))
    return index(v, i)


@model("slice::split_at", "str::split_at", "slice::split_at_mut")
def split_at(c, a):
    v, i = c.val(a[0]), c.val(a[1])
    cond = notb(lt(length(v), i))
    if cut_place(v, i):
        return tup(slice2(v, C("int", 0), i), slice2(v, i, None))
    if c.gpath.startswith(("core::str", "alloc::str")):
        c.ip.can_panic(c.st, c.fr, "char boundary", v, (i,), mk("app", "char_boundary", (), (v, i)), c.span)
    c.ip.can_panic(c.st, c.fr, "split_at", v, (i,), cond, c.span)
    F = assume(c.st.F, cond, True)
    if F is None:
        return None
    c.st.F = F
    v = simp(v, F)
    return tup(slice2(v, C("int", 0), i), slice2(v, i, None))


@model("slice::split_at_checked")
def split_at_checked(c, a):
    v, i = c.val(a[0]), c.val(a[1])
    cond = notb(lt(length(v), i))
    r = tup(slice2(v, C("int", 0), i), slice2(v, i, None))
    return alt([(g, some(r)) for g in cases_bool(cond, True)] + [(g, NONE) for g in cases_bool(cond, False)])


def rev(v):
    if v.op == "alt":
        return mapalt(v, rev)
    if v.op == "app" and v.a[0] == "rev":
        return v.a[2][0]
    if v.op == "list" and all(s.op == "one" for s in v.a):
        return lst(*v.a[::-1])
    return mk("app", "rev", (), (v,))


@model("slice::reverse")
def reverse(c, a):
    c.set(a[0], rev(c.val(a[0])))
    return UNIT


@model("Iterator::rev", "DoubleEndedIterator::rev")
def irev(c, a):
    return rev(c.val(a[0]))


def sortv(v):
    if v.op == "alt":
        return mapalt(v, sortv)
    if v.op == "app" and v.a[0] in ("sort", "rev"):
        return sortv(v.a[2][0])
    return mk("app", "sort", (), (v,))


@model("slice::sort", "slice::sort_unstable")
def sort(c, a):
    c.set(a[0], sortv(c.val(a[0])))
    return UNIT


def by_key(v, r, x):
    if r.op == "adt" and r.a[0].endswith("Reverse") and r.a[3] == (x,):
        return rev(sortv(v))
    t = r
    while t.op == "len" or t.op == "app" and t.a[0] in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "rev"):
        t = t.a[0] if t.op == "len" else t.a[2][0]
    # by a key that is another than the elements themselves: a different order
    if t is x and r is not x:
        return mk("app", "sorted_by_key", (), (v, S("length" if r.op == "len" else r.a[0])))
    return mk("app", "sort_by_key", (), (v, r))


@model("slice::sort_by", "slice::sort_by_key", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def sort_by(c, a):
    v, f = c.val(a[0]), c.val(a[1])
    if f.op == "clo":
        if c.gpath.endswith("key"):
            x = mk("sym", "#x")
            r, _ = c.apply(f, [x])
            if r is x:
                c.set(a[0], sortv(v))
                return UNIT
            c.set(a[0], by_key(v, r, x))
            return UNIT
        x, y = mk("sym", "#x"), mk("sym", "#y")
        r, _ = c.apply(f, [x, y])
        if r is mk("app", "cmp", (), (x, y)):
            c.set(a[0], sortv(v))
            return UNIT
        if r is mk("app", "cmp", (), (y, x)):
            c.set(a[0], rev(sortv(v)))
            return UNIT
        if r.op == "app" and r.a[0] == "cmp" and subst(r.a[2][0], {x: y}) is r.a[2][1]:
            c.set(a[0], by_key(v, r.a[2][0], x))
            return UNIT
        c.set(a[0], mk("app", "sort_by", (), (v, r)))
        return UNIT
    c.set(a[0], mk("app", "sort_by", (), (v, f)))
    return UNIT


@model("intrinsics::integer_min", "intrinsics::integer_max", "Ord::min", "Ord::max")
def lesser(c, a):
    x, y = c.val(a[0]), c.val(a[1])
    if c.gpath.endswith("max"):
        x, y = y, x
    cond = lt(x, y)
    return alt([(g, x) for g in cases_bool(cond, True)] + [(g, y) for g in cases_bool(cond, False)])


@model("Ord::cmp", "PartialOrd::partial_cmp")
def cmp_(c, a):
    if c.i is not None and c.i.get("body"):
        return NotImplemented
    r = mk("app", "cmp", (), (c.deep(a[0]), c.deep(a[1])))
    return r if c.gpath.endswith("::cmp") else some(r)


@model("slice::join", "slice::concat", "Join::join", "Concat::concat")
def join(c, a):
    v = c.val(a[0])
    sep = c.val(a[1]) if len(a) > 1 else S("")
    t = c.dtype()
    if v.op == "list" and len(a) == 1 and t is not None and t["s"].startswith("alloc::vec::Vec<") and all(s.op == "one" for s in v.a):
        out = ()
        for s in v.a:
            out += tuple(segs(s.a[0]))
        return lst(*out)
    if v.op == "list" and all(s.op == "one" for s in v.a):
        out = []
        for k, s in enumerate(v.a):
            if k:
                out.append(sep)
            out.append(s.a[0])
        return catall(out)
    return mk("app", "join", (), (v, sep))


@model("slice::contains", "VecDeque::contains", "HashSet::contains", "Vec::contains")
def contains(c, a):
    x = c.deep(a[1])
    return c_any(c, c.val(a[0]), lambda e, s2: eq(e, x))


@model("str::contains", "str::starts_with", "str::ends_with", "slice::starts_with", "slice::ends_with")
def str_pred(c, a):
    v, x = c.val(a[0]), c.deep(a[1])
    if x.op == "c" and x.a[0] == "char":
        x = S(x.a[1])
    name = n2(c.gpath)[1]
    if v.op == "c" and x.op == "c" and v.a[0] == x.a[0]:
        return B({"contains": lambda p, q: q in p, "starts_with": lambda p, q: p.startswith(q), "ends_with": lambda p, q: p.endswith(q)}[name](v.a[1], x.a[1]))
    if v is x:
        return B(True)
    if "slice" in c.gpath and name == "starts_with":
        return mapalt(v, lambda w: isv(mk("app", "strip_prefix", (), (w, x)), "Some", OPT))
    return mapalt(v, lambda w: mk("app", name, (), (w, x)))


@model("str::strip_prefix", "str::strip_suffix")
def strip_prefix(c, a):
    v, x = c.val(a[0]), c.deep(a[1])
    if x.op == "c" and x.a[0] == "char":
        x = S(x.a[1])
    pre = n2(c.gpath)[1] == "strip_prefix"
    p = mk("app", "starts_with" if pre else "ends_with", (), (v, x))
    n = length(x)
    rest = slice2(v, n, None) if pre else mk("app", "strip_suffix", (), (v, x))
    return alt([(frozenset([(p, True)]), some(rest)), (frozenset([(p, False)]), NONE)])


@model("str::split", "str::splitn", "str::rsplit", "str::rsplitn", "str::split_terminator", "str::split_whitespace", "str::lines", "str::trim", "str::trim_start",
       "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::chars", "str::bytes",
       "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::replace", "str::replacen", "str::parse", "str::find", "str::rfind",
       "str::split_once", "str::rsplit_once", "str::is_char_boundary", "str::repeat", "slice::repeat", "slice::chunks", "slice::windows",
       "str::char_indices", "str::split_inclusive", "str::matches", "slice::chunks_exact", "slice::iter_sum")
def str_pure(c, a):
    vals = tuple(c.deep(x) for x in a)
    vals = tuple(S(x.a[1]) if x.op == "c" and x.a[0] == "char" else x for x in vals)
    name = n2(c.gpath)[1]
    if name == "splitn" and len(vals) == 3 and vals[1].op == "c":
        vals = (vals[0], vals[2], vals[1])
    targs = ()
    if name == "parse":
        targs = (c.tname(0),)
    if name in ("find", "rfind") and len(vals) == 2 and vals[1].op == "c" and vals[1].a[0] == "str" and len(vals[1].a[1]) == 1 and vals[1].a[1].isascii():
        # the place of the separator is where the text before it ends
        cut = mk("app", "split_once" if name == "find" else "rsplit_once", (), vals)
        return mapcut(cut)
    return mk("app", name, targs, vals)


def mapcut(cut):
    at = some(length(field(field(cut, "0", "Some"), "0")))
    return alt([(frozenset([(isv(cut, "None", OPT), True)]), NONE), (frozenset([(isv(cut, "Some", OPT), True)]), at)])


def cut_place(v, k):
    """(cut, 0 or 1) where k is the place right before or after the separator v is cut at"""
    n = 0
    if k.op == "bin" and k.a[0].startswith("Add") and k.a[2] is C("int", 1):
        k, n = k.a[1], 1
    if k.op != "len":
        return None
    p = k.a[0]
    if p.op == "f" and p.a[0].op == "f" and p.a[0].a[0].op == "app" and p.a[0].a[0].a[0] in ("split_once", "rsplit_once"):
        cut = p.a[0].a[0]
        if cut.a[2][0] is v and p is field(field(cut, "0", "Some"), "0") and cut.a[2][1].op == "c" and len(cut.a[2][1].a[1]) == 1 and cut.a[2][1].a[1].isascii():
            return cut, n
    return None


@model("slice::strip_prefix", "slice::strip_suffix", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr")
def pure(c, a):
    return mk("app", n2(c.gpath)[1], (), tuple(c.deep(x) for x in a))


@model("str::from_utf8", "String::from_utf8", "converts::from_utf8", "string::from_utf8")
def from_utf8(c, a):
    v = c.val(a[0])
    if v.op == "c" and v.a[0] == "str":
        return ok(v)
    p = mk("app", "is_utf8", (), (v,))
    r = alt([(frozenset([(p, True)]), ok(v)), (frozenset([(p, False)]), err(mk("app", "Utf8Error", (), (v,))))])
    c.ip.event(c.st, c.fr, "call", "from_utf8", (v,), c.span, r)
    return r


@model("String::from_utf8_lossy", "string::from_utf8_lossy")
def from_utf8_lossy(c, a):
    return mk("app", "utf8_lossy", (), (c.val(a[0]),))


@model("iter::once", "once::once")
def iter_once(c, a):
    return lst(one(a[0]))


@model("iter::repeat")
def iter_repeat(c, a):
    return mk("app", "repeat_iter", (), (c.deep(a[0]),))


@model("slice::iter_mut", "Vec::iter_mut")
def iter_mut(c, a):
    v = c.val(a[0])
    p = a[0]
    if p.op == "ptr":
        n = 0
        while n < 5:
            cur = c.st.get(p.a[0], p.a[1])
            for (var, nm) in p.a[2]:
                cur = c.ip.step_in(c.st, cur, var, nm) if cur is not None else None
            if cur is not None and cur.op == "ptr":
                p = cur
                n += 1
                continue
            break
        return mk("itermut", p, v)
    return v


# ---------------------------------------------------------------- digests

def digest_of(c, parts):
    t = " ".join(str(c.ip.P.tstr(x)) for x in (c.callee.get("args") or ())[:1])
    body = parts[0] if len(parts) == 1 else lst(*[mk("all", p) for p in parts])
    return mk("app", "digest", (t.lstrip("&"),), (body,))


@model("Digest::digest")
def digest(c, a):
    return digest_of(c, [c.val(a[-1])])


@model("Digest::new")
def digest_new(c, a):
    return mk("hasher", ())


@model("Digest::update", "Digest::chain", "Update::update", "Update::chain")
def digest_update(c, a):
    h = c.val(a[0])
    if h.op != "hasher":
        return c.external(a)
    h = mk("hasher", h.a[0] + (c.val(a[1]),))
    if n2(c.gpath)[1] == "update":
        c.set(a[0], h)
        return UNIT
    return h


@model("Digest::finalize", "FixedOutput::finalize_fixed", "Digest::finalize_reset")
def digest_fin(c, a):
    h = c.val(a[0])
    if h.op != "hasher" or not h.a[0]:
        return c.external(a)
    return digest_of(c, list(h.a[0]))


# ---------------------------------------------------------------- maps

@model("KeyPublicBytes::with_public_bytes", "KeySecretBytes::with_secret_bytes")
def with_bytes(c, a):
    """the given function runs on the bytes, at once"""
    k = c.val(a[0])
    t = tuple(c.ip.P.tstr(x) for x in (c.callee.get("args") or ())[:1])
    if c.gpath.endswith("with_public_bytes"):
        b = mk("app", "public_bytes", t, (k,))
    elif k.op == "f" and k.a[0].op == "app" and k.a[0].a[0].endswith("from_secret_bytes"):
        b = some(k.a[0].a[2][0])
    else:
        b = mk("app", "secret_bytes", t, (k,))
    return c.ip.call_value(c.st, c.fr, c.val(a[1]), [b], c.span)


@model("HashMap::new", "BTreeMap::new", "Map::new", "HashMap::with_capacity", "Map::with_capacity", "IndexMap::new")
def map_new(c, a):
    return mk("map", ())


def map_put(m, k, v):
    if m.op == "map":
        kv = tuple((x, y) for x, y in m.a[0] if x is not k) + ((k, v),)
        if all(x.op == "c" for x, _ in kv):
            kv = tuple(sorted(kv, key=lambda q: (q[0].a[0], str(q[0].a[1]))))
        return mk("map", kv)
    if m.op == "alt":
        return mapalt(m, lambda w: map_put(w, k, v))
    return mk("app", "map_insert", (), (m, k, v))


@model("HashMap::insert", "BTreeMap::insert", "Map::insert", "IndexMap::insert")
def map_insert(c, a):
    m, k, v = c.val(a[0]), c.deep(a[1]), c.deep(a[2])
    c.set(a[0], map_put(m, k, v))
    return mk("app", "map_old", (), (m, k))


@model("HashMap::get", "BTreeMap::get", "Map::get", "HashMap::get_mut", "Map::get_mut", "HashMap::remove", "Map::remove", "BTreeMap::remove")
def map_get(c, a):
    m, k = c.val(a[0]), c.deep(a[1])
    name = n2(c.gpath)[1]
    r = map_lookup(m, k)
    if name == "get_mut" and a[0].op == "ptr":
        p = a[0]
        here = mk("ptr", p.a[0], p.a[1], p.a[2] + (("key", k),))
        c_ = isv(r, "Some", ONCE)
        return alt([(g, some(here)) for g in cases_bool(c_, True)] + [(g, NONE) for g in cases_bool(c_, False)])
    if name == "remove":
        c.set(a[0], mk("app", "map_remove", (), (m, k)))
    return r


def map_lookup(m, k):
    if m.op == "alt":
        return mapalt(m, lambda w: map_lookup(w, k))
    if m.op == "map":
        if not m.a[0]:
            return NONE
        for x, y in m.a[0]:
            if x is k:
                return some(y)
        if k.op == "c" and all(x.op == "c" for x, _ in m.a[0]):
            return NONE
    if m.op == "app" and m.a[0] == "map_insert":
        if m.a[2][1] is k:
            return some(m.a[2][2])
        if m.a[2][1].op == "c" and k.op == "c":
            return map_lookup(m.a[2][0], k)
    return mk("app", "map_get", (), (m, k))


@model("HashMap::entry", "BTreeMap::entry", "Map::entry")
def map_entry(c, a):
    if a[0].op != "ptr":
        return c.external(a)
    return mk("mapentry", a[0], c.deep(a[1]))


def entry_put(c, a, make):
    e = a[0]
    if e.op != "mapentry":
        return c.external(a)
    p, k = e.a
    m = c.val(p)
    r = map_lookup(m, k)
    there = isv(r, "Some", ONCE)
    cs = [(g, m) for g in cases_bool(there, True)]
    for g in cases_bool(there, False):
        cs.append((g, map_put(m, k, make(g))))
    c.set(p, simp(alt(cs), c.st.F))
    return mk("ptr", p.a[0], p.a[1], p.a[2] + (("key", k),))


@model("Entry::or_insert")
def or_insert(c, a):
    return entry_put(c, a, lambda g: c.deep(a[1]))


@model("Entry::or_insert_with")
def or_insert_with(c, a):
    return entry_put(c, a, lambda g: c.apply(a[1], [], g)[0])


@model("Entry::insert_entry")
def entry_insert(c, a):
    e = a[0]
    if e.op != "mapentry":
        return c.external(a)
    p, k = e.a
    c.set(p, map_put(c.val(p), k, c.deep(a[1])))
    return mk("ptr", p.a[0], p.a[1], p.a[2] + (("key", k),))


@model("HashMap::contains_key", "Map::contains_key", "BTreeMap::contains_key")
def contains_key(c, a):
    return isv(map_lookup(c.val(a[0]), c.deep(a[1])), "Some", ONCE)


@model("HashMap::iter", "Map::iter", "BTreeMap::iter", "HashMap::into_iter", "HashMap::iter_mut")
def map_iter(c, a):
    return c.val(a[0])


@model("HashMap::keys", "HashMap::values", "Map::keys", "Map::values", "BTreeMap::keys", "BTreeMap::values", "HashMap::into_values", "HashMap::into_keys", "HashMap::values_mut")
def map_kv(c, a):
    return mk("app", n2(c.gpath)[1], (), (c.val(a[0]),))


# ---------------------------------------------------------------- iterators

def fresh_elem(c, base):
    return interp.elem_for(c.st.F, base)


def base_of(v):
    while v.op == "app" and v.a[0] in ("rev", "sort", "sort_by", "sort_by_key", "sorted_by_key"):
        v = v.a[2][0]
    return v


def length_range(v):
    """the list a 0..len(list) range counts over"""
    if v.op == "adt" and v.a[0].endswith("ops::range::Range"):
        s, e = v.a[3][v.a[2].index("start")], v.a[3][v.a[2].index("end")]
        if s.op == "c" and s.a[1] == 0 and e.op == "len":
            return e.a[0]
    return None


def elements(c, v, d=None):
    """(source list, element variable, guard facts, element value) of one round over v"""
    if v.op == "itermut":
        src, e, g, val = elements(c, v.a[1], d)
        return src, e, g, val
    if v.op == "app" and v.a[0] == "after_resize" and v.a[2][1].op == "len":
        # as many cells as the other list has elements
        src, e, g, val = elements(c, v.a[2][1].a[0], d)
        if not g:
            cur, n, x = v.a[2]
            return src, e, g, x if cur is lst() else mk("idx", v, mk("app", "pos", (), (e,)))
    L = length_range(v)
    if L is not None:
        src, e, g, val = elements(c, L, d)
        return src, e, g, mk("app", "pos", (), (e,))
    if v.op == "list" and len(v.a) == 1 and v.a[0].op == "comp":
        src, ev, g, val = v.a[0].a
        if ev.op == "elem" and isinstance(ev.a[1], int):
            e = fresh_elem(c, ev.a[0]) if d is None else mk("elem", ev.a[0], d)
            if e is not ev:
                m = {ev: e}
                g2 = subst_facts(g, m)
                return src, e, (g2 if g2 is not None else frozenset([(FALSE, True)])), subst(val, m)
        return src, ev, g, val
    if v.op == "list" and v.a and len(v.a) <= 12 and all(s.op == "one" for s in v.a):
        e = fresh_elem(c, v) if d is None else mk("elem", v, d)
        names = tuple(str(k) for k in range(len(v.a)))
        if len(v.a) == 1:
            return v, e, EMPTY, v.a[0].a[0]
        val = alt([(frozenset([(mk("is", e, n, names), True)]), s.a[0]) for n, s in zip(names, v.a)])
        return v, e, EMPTY, val
    if v.op == "list" and len(v.a) > 1:
        e = fresh_elem(c, v) if d is None else mk("elem", v, d)
        names = tuple(str(k) for k in range(len(v.a)))
        cs = []
        for n, s in zip(names, v.a):
            g = frozenset([(mk("is", e, n, names), True)])
            if s.op == "one":
                cs.append((g, s.a[0]))
            elif s.op == "all":
                cs.append((g, fresh_elem(c, s.a[0])))
            else:
                cs.append((ext(g, s.a[2]) or g, s.a[3]))
        return v, e, EMPTY, alt(cs)
    if v.op == "app" and v.a[0] in ("rev", "sort"):
        inner = v.a[2][0]
        src, e, g, val = elements(c, inner, d)
        if src is inner or length_range(inner) is not None or (inner.op == "list" and len(inner.a) == 1):
            return mk("app", v.a[0], (), (src,)), e, g, val
        return v, e, g, val
    e = fresh_elem(c, base_of(v)) if d is None else mk("elem", base_of(v), d)
    return v, e, EMPTY, e


def inn(e):
    return (mk("is", mk("it", e), "Some", ONCE), True)


def lists(v):
    """alternatives of a list value"""
    return cases(v)


def overlist(c, v, f):
    """apply f(c, list) to each alternative of v, under its guard"""
    cs = cases(v)
    if len(cs) == 1:
        return f(v)
    out = []
    F0 = c.st.F
    for g, w in cs:
        F = ext(F0, g)
        if F is None:
            continue
        c.st.F = F
        r = f(w)
        c.st.F = F0
        if r is not None:
            out.append((g, r))
    return alt(out)


@model("Iterator::next")
def next_(c, a):
    ip, st = c.ip, c.st
    p = a[0]
    if c.i is not None and c.i.get("local"):
        return NotImplemented
    # follow to the cell that holds the iterator itself
    n = 0
    while p.op == "ptr" and n < 8:
        cur = ip.read_ptr(st, p)
        if cur.op == "ptr":
            p = cur
            n += 1
        else:
            break
    v = c.val(p)
    if p.op == "ptr" and ip.loops:
        L = ip.loops[-1]
        hv = L.head.get(p.a[0], p.a[1]) if not L.rounds else None
        if hv is not None:
            for (var, nm) in p.a[2]:
                hv = ip.step_in(L.head, hv, var, nm)
            if hv.op == "ptr":
                hv = ip.deref(L.head, hv)
        if hv is not None and simp(hv, st.F) is v:
            e0 = None
            for itt, (src, e) in L.iters.items():
                if src is v or itt.a and e0 is None and getattr(L, "used", None) is not None:
                    pass
            return next_in_loop(c, L, p, v)
    r = overlist(c, v, lambda w: optlist_(w, lambda x: index(x, C("int", 0))))
    if p.op == "ptr":
        c.set(p, mapalt(v, tail))
    return r


def optlist_(w, f):
    e = empty(w)
    out = [(h, some(f(w))) for h in cases_bool(e, False)] + [(h, NONE) for h in cases_bool(e, True)]
    return alt(out)


def next_in_loop(c, L, p, v):
    mut = v.op == "itermut"
    lists_ = v
    key = (p, v)
    got = None
    for itt, x in L.iters.items():
        if x[0] is v or (len(x) > 2 and x[2] is v):
            got = x
    if v is lst():
        return NONE
    if v.op == "alt":
        w = c.ip.taken.get(L.key)
        if w is not None and any(x is w for _, x in v.a[0]):
            v = w
            if v is lst():
                return NONE
    if v.op == "list" and len(v.a) <= 8 and all(s.op == "one" for s in v.a) and L.key not in c.ip.whole:
        raise interp.Unroll(L.key, len(v.a))
    if v.op == "alt":
        if got is None and 1 < len(v.a[0]) <= 8 and len(L.key) < 5:
            raise interp.Fork(v, L.key)
        v = mk("list", *[s for s in (mk("all", v),)])
    src, e, g, val = elements(c, v)
    itt = mk("it", e)
    L.iters[itt] = (src, e)
    if g:
        L.guards[itt] = frozenset(g)
    if mut:
        # element cell: the value is copied out and written back through a per-loop cell
        fid = c.ip.fid("itermut", L.key)
        c.st.put(fid, 0, val)
        val = mk("ptr", fid, 0, ())
    some_g = frozenset([(mk("is", itt, "Some", ONCE), True)])
    if g:
        some_g = ext(some_g, g) or some_g
    none_g = frozenset([(mk("is", itt, "None", ONCE), True)])
    return mk("alt", ((some_g, some(val)), (none_g, NONE)))


def listmap(c, v, f):
    if v.op == "alt":
        return overlist(c, v, lambda w: listmap(c, w, f))
    out = []
    if v.op == "list" and len(v.a) > 1 or (v.op == "list" and v.a and v.a[0].op == "one"):
        for s in v.a:
            if s.op == "one":
                r, _ = c.apply(f, [s.a[0]])
                out.append(one(r))
            else:
                out.extend(segs(listmap(c, lst(s), f)))
        return lst(*out)
    if v.op == "list" and not v.a:
        return v
    src, e, g, val = elements(c, v)
    F0 = c.st.F
    r, F = c.apply(f, [val], g | {inn(e)})
    # facts decided inside the closure stay in the value's guards
    return lst(comp(src, e, g, r))


@model("Iterator::map")
def imap(c, a):
    return listmap(c, c.val(a[0]), c.val(a[1]))


def boolfacts(r):
    """(facts when true, facts when false); None when impossible"""
    t, f = cases_bool(r, True), cases_bool(r, False)
    return (mk_or(t) if t else None), (mk_or(f) if f else None)


def listfilter(c, v, f):
    if v.op == "alt":
        return overlist(c, v, lambda w: listfilter(c, w, f))
    if v.op == "list" and not v.a:
        return v
    if v.op == "list" and all(s.op == "one" for s in v.a):
        cands = [(EMPTY, ())]
        for s in v.a:
            r, _ = c.apply(f, [s.a[0]])
            new = []
            for g, acc in cands:
                for h in cases_bool(r, True):
                    k = ext(g, h)
                    if k is not None:
                        new.append((k, acc + (s,)))
                for h in cases_bool(r, False):
                    k = ext(g, h)
                    if k is not None:
                        new.append((k, acc))
            cands = new
            if len(cands) > 16:
                return mk("app", "filter", (), (v, f))
        return alt([(g, lst(*acc)) for g, acc in cands])
    if v.op == "list" and len(v.a) > 1:
        out = []
        for s in v.a:
            r = listfilter(c, lst(s), f)
            if r.op == "alt":
                return mk("app", "filter", (), (v, f))
            out.extend(segs(r))
        return lst(*out)
    src, e, g, val = elements(c, v)
    r, F = c.apply(f, [val], g | {inn(e)})
    t, _ = boolfacts(r)
    if t is None:
        return lst()
    gg = ext(g, t)
    if gg is None:
        return lst()
    return lst(comp(src, e, gg, val))


@model("Iterator::filter")
def ifilter(c, a):
    return listfilter(c, c.val(a[0]), c.val(a[1]))


@model("Iterator::filter_map")
def ifilter_map(c, a):
    f = c.val(a[1])
    def go(v):
        if v.op == "list" and not v.a:
            return v
        src, e, g, val = elements(c, v)
        r, F = c.apply(f, [val], g | {inn(e)})
        cs = [(h, w.a[3][0]) for h, w in cases(r) if w.op == "adt" and w.a[1] == "Some"]
        unk = [(h, w) for h, w in cases(r) if w.op != "adt"]
        for h, w in unk:
            k = ext(h, [(mk("is", w, "Some", ONCE), True)])
            if k is not None:
                cs.append((k, field(w, "0", "Some")))
        if not cs:
            return lst()
        gg = ext(g, mk_or([h for h, _ in cs]))
        return lst(comp(src, e, gg if gg is not None else g, alt(cs)))
    return overlist(c, c.val(a[0]), go)


def c_find(c, v, pred, wrap=lambda e, val, r: some(val), which="first"):
    """first element for which pred holds: guarded Some / None"""
    if v.op == "alt":
        return overlist(c, v, lambda w: c_find(c, w, pred, wrap, which))
    if v.op == "list" and not v.a:
        return NONE
    if v.op == "list" and len(v.a) == 1 and v.a[0].op == "one":
        val = v.a[0].a[0]
        r = pred(val, EMPTY)
        return alt([(g, wrap(C("int", 0), val, r)) for g in cases_bool(r, True)] + [(g, NONE) for g in cases_bool(r, False)])
    if v.op == "list" and len(v.a) <= 6 and all(s.op == "one" for s in v.a):
        out, rest = [], [EMPTY]
        seq = list(enumerate(v.a)) if which == "first" else list(enumerate(v.a))[::-1]
        for k, s in seq:
            r = pred(s.a[0], EMPTY)
            w = wrap(C("int", k), s.a[0], r)
            out += [(e, w) for g in rest for h in cases_bool(r, True) for e in [ext(g, h)] if e is not None]
            rest = [e for g in rest for h in cases_bool(r, False) for e in [ext(g, h)] if e is not None]
            if len(rest) > 16:
                break
        else:
            return alt(out + [(g, NONE) for g in rest])
    src, e, g, val = elements(c, v)
    r = pred(val, g | {inn(e)})
    out = []
    t, f = boolfacts(r)
    if t is not None:
        G = ext(g, t)
        if G is not None:
            if e.op == "elem":
                ne = chosen(which, src, e, G)
                mm = {e: ne}
                G2 = subst_facts(G, mm)
                if G2 is not None:
                    out.append((G2 | {inn(ne), exists_fact(src, e, G)}, subst(wrap(e, val, r), mm)))
            else:
                out.append((G | {inn(e)}, wrap(e, val, r)))
            out.append((notexists(src, e, G), NONE))
        else:
            out.append((EMPTY, NONE))
    else:
        out.append((EMPTY, NONE))
    return alt(out)


def predf(c, f):
    def p(val, facts):
        r, _ = c.apply(f, [val], facts)
        return r
    return p


@model("Iterator::find")
def ifind(c, a):
    return c_find(c, c.val(a[0]), predf(c, c.val(a[1])))


@model("Iterator::rfind", "DoubleEndedIterator::rfind")
def irfind(c, a):
    return c_find(c, c.val(a[0]), predf(c, c.val(a[1])), which="last")


def posof(e, val, r):
    return some(e if e.op == "c" else mk("app", "pos", (), (e,)))


@model("Iterator::position")
def iposition(c, a):
    return c_find(c, c.val(a[0]), predf(c, c.val(a[1])), posof)


@model("Iterator::rposition")
def irposition(c, a):
    return c_find(c, c.val(a[0]), predf(c, c.val(a[1])), posof, which="last")


@model("Iterator::find_map")
def ifind_map(c, a):
    f = c.val(a[1])
    hold = {}

    def p(val, facts):
        r, _ = c.apply(f, [val], facts)
        hold["r"] = r
        return isv(r, "Some", ONCE)

    def w(e, val, r):
        cs = []
        for g, x in cases(hold["r"]):
            if x.op == "adt" and x.a[1] == "Some":
                cs.append((g, x))
            elif x.op != "adt":
                cs.append((g, some(field(x, "0", "Some"))))
        return alt(cs)
    return c_find(c, c.val(a[0]), p, w)


def c_any(c, v, pred):
    if v.op == "alt":
        return overlist(c, v, lambda w: c_any(c, w, pred))
    if v.op == "list" and all(s.op == "one" for s in v.a):
        r = FALSE
        for s in v.a:
            r = or_(r, pred(s.a[0], EMPTY))
        return r
    r = c_find(c, v, pred)
    return mapalt(r, lambda w: B(w.op == "adt" and w.a[1] == "Some"))


@model("Iterator::any")
def iany(c, a):
    return c_any(c, c.val(a[0]), predf(c, c.val(a[1])))


@model("Iterator::all")
def iall(c, a):
    p = predf(c, c.val(a[1]))
    return notb(c_any(c, c.val(a[0]), lambda e, g: notb(p(e, g))))


@model("Iterator::enumerate")
def ienumerate(c, a):
    def go(v):
        if v.op == "list" and all(s.op == "one" for s in v.a):
            return lst(*[one(tup(C("int", k), s.a[0])) for k, s in enumerate(v.a)])
        src, e, g, val = elements(c, v, 0)
        return lst(comp(src, e, g, tup(mk("app", "pos", (), (e,)), val)))
    return overlist(c, c.val(a[0]), go)


@model("Iterator::zip", "iter::zip")
def izip(c, a):
    v, w = c.val(a[0]), c.val(a[1])
    if v.op == "alt" or w.op == "alt":
        return mk("app", "zip", (), (v, w))
    src, e, g, val = elements(c, v, 0)
    if g:
        return mk("app", "zip", (), (v, w))
    src2, e2, g2, val2 = elements(c, w, 0)
    if g2:
        return mk("app", "zip", (), (v, w))
    more = longer(src2, src)
    r1, r2 = turned(src), turned(src2)
    if base_of(src2) is base_of(src) and src2 is src:
        v2 = subst(val2, {e2: e}) if e2 is not e else val2
    elif e2.op == "elem":
        # beside e: counted from the same end, unless one of the two is turned round
        if r1 and r2 and more is not None and more == 0 or not r1 and not r2:
            z = mk("elem", e2.a[0], ("zip", e))
        else:
            z = mk("elem", mk("app", "rev", (), (e2.a[0],)) if r2 else e2.a[0], ("zip", mk("app", "from_end", (), (e,)) if r1 else e))
        v2 = subst(val2, {e2: z})
    else:
        v2 = val2
    if more is None and src.op != "app" or more is not None and more < 0:
        src = mk("app", "take", (), (src, length(src2)))
    return lst(comp(src, e, EMPTY, tup(val, v2)))


def turned(v):
    return v.op == "app" and v.a[0] == "rev" and not turned(v.a[2][0])


def extent(v, out=None, n=1):
    """how many elements v has: {list: how often, None: how many more}"""
    out = {None: 0} if out is None else out
    if v.op == "list":
        for s in v.a:
            if s.op == "one":
                out[None] += n
            elif s.op == "all":
                extent(s.a[0], out, n)
            elif s.op == "comp" and not s.a[2]:
                extent(s.a[0], out, n)
            else:
                out[s] = out.get(s, 0) + n
    elif v.op == "app" and v.a[0] in ("rev", "sort", "sort_by", "sort_by_key", "sorted_by_key"):
        extent(v.a[2][0], out, n)
    elif v.op == "app" and v.a[0] == "tail":
        extent(v.a[2][0], out, n)
        out[None] -= n
    elif v.op == "app" and v.a[0] == "iter::once" or v.op == "app" and v.a[0].endswith("iter::once"):
        out[None] += n
    else:
        out[v] = out.get(v, 0) + n
    return out


def longer(v, w):
    """by how many elements v is longer than w, if that is known"""
    d = extent(w, extent(v), -1)
    n = d.pop(None)
    return n if not any(d.values()) else None


def option_list(c, v):
    """an option taken as a list of at most one"""
    v = c.deep(v)
    y, n = cases_bool(isv(v, "Some", ONCE), True), cases_bool(isv(v, "Some", ONCE), False)
    if v.op == "alt":
        return mapalt(v, lambda w: option_list(c, w))
    if v.op == "adt":
        return lst(one(v.a[3][0])) if v.a[1] == "Some" else lst()
    return alt([(g, lst(one(field(v, "0", "Some")))) for g in y] + [(g, lst()) for g in n])


OPTY = re.compile(r"^(&(mut )?|'\w+ )*(core|std)::option::Option<")


@model("Option::iter", "Option::iter_mut", "Option::into_iter")
def optiter(c, a):
    if n2(c.gpath)[1] == "iter_mut":
        return NotImplemented
    return option_list(c, c.val(a[0]))


@model("IntoIterator::into_iter")
def into_iter(c, a):
    ty = [c.ip.P.tstr(x) for x in c.callee.get("args", ()) if isinstance(x, int)]
    if ty and OPTY.match(ty[0]):
        return option_list(c, c.val(a[0]))
    return identv(c, a)


@model("Iterator::chain")
def ichain(c, a):
    v, w = c.val(a[0]), c.val(a[1])
    ty = [c.ip.P.tstr(x) for x in c.callee.get("args", ()) if isinstance(x, int)]
    if len(ty) > 1 and OPTY.match(ty[1]):
        w = option_list(c, w)
    return mapalt(v, lambda x: mapalt(w, lambda y: lst(*(segs(x) + segs(y)))))


@model("Iterator::skip", "Iterator::take", "Iterator::step_by", "Iterator::skip_while", "Iterator::take_while", "Iterator::flat_map", "Iterator::flatten",
       "Iterator::scan", "Iterator::map_while", "Iterator::inspect", "Iterator::cycle")
def iskip(c, a):
    name = n2(c.gpath)[1]
    v = c.val(a[0])
    vals = tuple(c.deep(x) for x in a[1:])
    if name == "skip" and vals[0].op == "c":
        for _ in range(min(vals[0].a[1], 4)):
            v = tail(v)
        return v
    if name == "take":
        return mapalt(v, lambda w: mapalt(vals[0], lambda n: taken(w, n)))
    if name == "flatten":
        def go(w):
            if w.op == "list" and len(w.a) <= 4 and all(s.op == "one" for s in w.a):
                # some of a few known ones
                ty = " ".join(c.ip.P.tstr(x) for x in c.callee.get("args", ()) if isinstance(x, int))
                if len(w.a) == 1 and re.search(r"option::IntoIter<&[^<>]*(HashMap|Vec|BTreeMap|\[)|option::Iter<[^<>]*(HashMap|Vec|BTreeMap|\[)", ty):
                    return c.deep(w.a[0].a[0])
                if not w.a:
                    return lst()
                if "Option<" not in ty or "Result<" in ty or "Vec<" in ty:
                    return mk("app", "flatten", (), (w,))
                outs = [(EMPTY, [])]
                for s in w.a:
                    x = c.deep(s.a[0])
                    yes, no = cases_bool(isv(x, "Some", ONCE), True), cases_bool(isv(x, "Some", ONCE), False)
                    outs = [(e, l) for g, p in outs for e, l in [(ext(g, h), p + [one(field(x, "0", "Some"))]) for h in yes] + [(ext(g, h), p) for h in no] if e is not None]
                return alt([(g, lst(*p)) for g, p in outs])
            if w.op == "list" and len(w.a) == 1 and w.a[0].op == "comp":
                src, e, g, val = w.a[0].a
                cs = [(h, x) for h, x in cases(val)]
                if all(x.op == "adt" and x.a[0] in (OPTION, RESULT) for _, x in cs):
                    keep = [(h, x.a[3][0]) for h, x in cs if x.a[1] in ("Some", "Ok")]
                    if keep:
                        gg = ext(g, mk_or([h for h, _ in keep]))
                        return lst(comp(src, e, gg if gg is not None else g, alt(keep)))
            return mk("app", "flatten", (), (w,))
        return overlist(c, v, go)
    if name == "flat_map":
        src, e, g, val = elements(c, v)
        r, F = c.apply(vals[0], [val], g | {inn(e)})
        cs = cases(r)
        if all(x.op == "adt" and x.a[0] in (OPTION, RESULT) for _, x in cs):
            keep = [(h, x.a[3][0]) for h, x in cs if x.a[1] in ("Some", "Ok")]
            if keep:
                gg = ext(g, mk_or([h for h, _ in keep]))
                return lst(comp(src, e, gg if gg is not None else g, alt(keep)))
        return mk("app", "flatten", (), (lst(comp(src, e, g, r)),))
    if name == "inspect":
        return v
    return mk("app", name, (), (v,) + vals)


@model("Iterator::nth")
def inth(c, a):
    v, i = c.val(a[0]), c.val(a[1])
    cond = lt(i, length(v))
    r = alt([(g, some(index(v, i))) for g in cases_bool(cond, True)] + [(g, NONE) for g in cases_bool(cond, False)])
    if a[0].op == "ptr":
        c.set(a[0], mk("app", "skip", (), (v, i)))
    return r


@model("Iterator::max", "Iterator::min", "Iterator::sum", "Iterator::product", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::partition", "Iterator::unzip")
def ired(c, a):
    return mk("app", n2(c.gpath)[1], (), tuple(c.deep(x) for x in a))


@model("Iterator::next_back", "DoubleEndedIterator::next_back")
def next_back(c, a):
    v = c.val(a[0])
    r = overlist(c, v, lambda w: optlist_(w, last_of))
    c.set(a[0], mapalt(v, init_))
    return r


@model("Iterator::peek", "Peekable::peek")
def peek(c, a):
    v = c.val(a[0])
    return overlist(c, v, lambda w: optlist_(w, lambda x: index(x, C("int", 0))))


@model("Iterator::collect", "FromIterator::from_iter")
def collect(c, a):
    v = c.val(a[0])
    if v.op == "itermut":
        v = v.a[1]
    args = c.callee.get("args") or ()
    t = c.ip.P.types[args[-1]] if args and c.gpath.endswith("collect") else (c.ip.P.types[args[0]] if args else c.dtype())
    return collect_as(c, v, t)


def collect_as(c, v, t):
    p = t.get("path")
    if p in (RESULT, OPTION):
        good, bad = ("Ok", "Err") if p == RESULT else ("Some", "None")
        inner = c.ip.P.types[t["args"][0]]
        vs = VARIANTS[p]

        def go(w):
            if w.op == "list" and not w.a:
                return adt(p, good, ("0",), (collect_as(c, w, inner),))
            if w.op == "list" and (len(w.a) > 1 or w.a[0].op == "one"):
                if not all(s.op == "one" for s in w.a):
                    return mk("app", "collect", (t["s"],), (w,))
                allok = TRUE
                for s in w.a:
                    allok = and_(allok, isv(s.a[0], good, vs))
                okv = lst(*[one(field(s.a[0], "0", good)) for s in w.a])
                out = [(g, adt(p, good, ("0",), (simp(okv, g),))) for g in cases_bool(allok, True)]
                for g in cases_bool(allok, False):
                    out.append((g, NONE if p == OPTION else err(alt([(EMPTY, field(s.a[0], "0", bad)) for s in w.a]))))
                return alt(out)
            src, e, g, val = elements(c, w)
            okc, badc = [], []
            for h, x in cases(val):
                if x.op == "adt":
                    (okc if x.a[1] == good else badc).append((h, x.a[3][0] if x.a[3] else UNIT))
                else:
                    k = ext(h, [(mk("is", x, good, vs), True)])
                    if k is not None:
                        okc.append((k, field(x, "0", good)))
                    k = ext(h, [(mk("is", x, bad, vs), True)])
                    if k is not None:
                        badc.append((k, field(x, "0", bad) if p == RESULT else UNIT))
            out = []
            if okc:
                fk = mk_or([h for h, _ in okc])
                okfacts = forall(src, e, fk, frozenset(g)) if badc else EMPTY
                out.append((okfacts, adt(p, good, ("0",), (collect_as(c, lst(comp(src, e, g, alt(okc))), inner),))))
            else:
                out.append((frozenset([(mk("empty", src), True)]), adt(p, good, ("0",), (collect_as(c, lst(), inner),))))
            if badc:
                G = mk_or([h for h, _ in badc])
                G = ext(g, G) or G
                if e.op == "elem":
                    ne = chosen("first", src, e, G)
                    mm = {e: ne}
                    G2 = subst_facts(G, mm)
                    if G2 is not None:
                        bv = subst(alt(badc), mm)
                        out.append((G2 | {inn(ne), exists_fact(src, e, G)}, NONE if p == OPTION else err(bv)))
                else:
                    out.append((G, NONE if p == OPTION else err(alt(badc))))
            return alt(out)
        return overlist(c, v, go)
    if p in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::collections::vec_deque::VecDeque") or t["k"] == "box":
        if v.op == "adt" and v.a[0] == OPTION:
            return lst(one(v.a[3][0])) if v.a[1] == "Some" else lst()
        return v
    if p and ("HashSet" in p or "BTreeSet" in p):
        return mk("app", "set", (), (v,))
    return mk("app", "collect", (t["s"],), (v,))


@model("Iterator::fold", "Iterator::try_fold", "Iterator::for_each", "Iterator::try_for_each")
def ifold(c, a):
    ip, st = c.ip, c.st
    name = n2(c.gpath)[1]
    v = c.val(a[0])
    folds = name.endswith("fold")
    if folds:
        acc, f = a[1], c.val(a[2])
    else:
        acc, f = UNIT, c.val(a[1])
    cont, stop, kind = None, None, None
    if name.startswith("try_"):
        t = str((c.dtype() or {}).get("path") or (c.dtype() or {}).get("s") or "")
        if "result::Result" in t:
            cont, stop, kind = "Ok", "Err", RESULT
        elif "option::Option" in t:
            cont, stop, kind = "Some", "None", OPTION
        else:
            return c.external(a)
    fid = ip.fid("fold", c.fr.fid if c.fr else 0, c.span, len(ip.stackn))
    st.put(fid, "it", v)
    st.put(fid, "acc", acc)
    pit = mk("ptr", fid, "it", ())

    def body(s0):
        c.st = s0
        r = next_(c, [pit])
        outs = []
        F = assume(s0.F, isv(r, "None", ONCE), True)
        if F is not None:
            s2 = s0.with_facts(F)
            if cont:
                s2.put(fid, "ret", ok(s2.get(fid, "acc")) if kind == RESULT else some(s2.get(fid, "acc")))
            outs.append((0, "out", s2))
        F = assume(s0.F, isv(r, "Some", ONCE), True)
        if F is not None:
            s1 = s0.with_facts(F)
            x = field(simp(r, F), "0", "Some")
            cur = s1.get(fid, "acc")
            args = [cur, x] if folds else [x]
            q = ip.call_value(s1, c.fr, f, args, c.span)
            if q is not None and s1.F is not None:
                if cont:
                    vs = TM.VARIANTS[kind]
                    F2 = assume(s1.F, isv(q, stop, vs), True)
                    if F2 is not None:
                        s3 = s1.with_facts(F2)
                        s3.put(fid, "ret", err(field(simp(q, F2), "0", "Err")) if kind == RESULT else NONE)
                        outs.append((0, "out", s3))
                    F2 = assume(s1.F, isv(q, cont, vs), True)
                    if F2 is None:
                        return outs
                    s1 = s1.with_facts(F2)
                    q = field(simp(q, F2), "0", cont)
                if folds:
                    s1.put(fid, "acc", q)
                outs.append((0, "head", s1))
        return outs
    exits = ip.forked((fid, "fold"), body, "head", st.copy())
    c.st = st
    ss = [s for _, d, s in exits if d == "out"]
    if not ss:
        st.F = None
        return None
    j = ip.join(ss)
    st.mem, st.own, st.F = j.mem, j.own, j.F
    r = st.get(fid, "ret" if cont else "acc")
    st.drop(fid)
    return simp(r, st.F)


# ---------------------------------------------------------------- mem / option leftovers

@model("mem::replace", "mem::take", "Option::take", "mem::swap", "Option::replace")
def mem_replace(c, a):
    name = n2(c.gpath)[1]
    if a[0].op != "ptr":
        return c.external(a)
    old = c.val(a[0])
    if name == "swap":
        new = c.val(a[1])
        c.set(a[0], new)
        c.set(a[1], old)
        return UNIT
    if name == "replace":
        if "option" in c.gpath:
            c.set(a[0], some(a[1]))
        else:
            c.set(a[0], a[1])
        return old
    if "option" in c.gpath:
        c.set(a[0], NONE)
        return old
    t = c.tname(0)
    c.set(a[0], NONE if t.startswith("core::option::Option") else lst() if t.startswith("alloc::vec::Vec") else S("") if t.startswith("alloc::string::String") else mk("app", "default", (t,), ()))
    return old


@model("mem::drop", "drop")
def drop_(c, a):
    return UNIT


@model("intrinsics::discriminant_value")
def discr_value(c, a):
    v = c.val(a[0])
    args = c.callee.get("args") or ()
    t = c.ip.P.types[args[0]] if args else None
    vs = c.ip.P.variants(args[0]) if t else None
    if vs is None:
        return mk("discr", v, ())
    return mk("discr", v, vs[0], tuple(sorted(vs[1].items())))


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def fncall(c, a):
    if len(a) == 2:
        return c.ip.call_closure_args(c.st, c.fr, a, c.span)
    return NotImplemented


# ---------------------------------------------------------------- diverging

@model("option::unwrap_failed", "option::expect_failed", "result::unwrap_failed", "panicking::panic", "panicking::panic_fmt", "unwrap_failed::unwrap_failed_inner",
       "panicking::panic_explicit", "panicking::unreachable_display", "panicking::panic_display", "panicking::assert_failed", "panicking::panic_nounwind",
       "rt::begin_panic", "panicking::assert_failed_inner", "panicking::panic_const", "process::exit", "process::abort", "panicking::panic_str_2015")
def diverge(c, a):
    e = c.ip.event(c.st, c.fr, "panic", n2(c.gpath)[1], tuple(a), c.span)
    if e is not None and c.fr is not None and e.name in ("unwrap_failed", "expect_failed"):
        # what was unwrapped is the first argument of Option::unwrap, Result::expect, ...
        v = c.fr.args[0] if c.fr.args else None
        if v is not None:
            e.subject = c.ip.deep(c.st, v)
    c.st.F = None
    return None


@model("intrinsics::unreachable", "hint::unreachable_unchecked")
def unreachable(c, a):
    c.st.F = None
    return None


# ---------------------------------------------------------------- errors

@model("Error::context", "Context::context")
def anyhow_ctx(c, a):
    if not c.gpath.startswith("anyhow"):
        return NotImplemented
    return mk("app", "anyhow::context", (), (c.deep(a[0]), c.deep(a[1])))


@model("Error::new", "Error::msg")
def anyhow_new(c, a):
    if not c.gpath.startswith("anyhow"):
        return NotImplemented
    return mk("app", "anyhow::new", (), (c.deep(a[0]),))


# ---------------------------------------------------------------- json

@model("value::to_value")
def to_value(c, a):
    v = c.deep(a[0])
    return ok(v)


def json_lookup(v, k):
    """the member k of a JSON value, as Some / None cases"""
    vs = VARIANTS.get("serde_json::value::Value") or TM.ENUMS.get("serde_json::value::Value") or ("Null", "Bool", "Number", "String", "Array", "Object")

    def go(w):
        t = isv(w, "Object", vs)
        out = []
        for g in cases_bool(t, True):
            m = map_lookup(field(w, "0", "Object"), k)
            for h, x in cases(m):
                e = ext(g, h)
                if e is None:
                    continue
                if x.op == "adt":
                    out.append((e, x))
                    continue
                there = isv(x, "Some", ONCE)
                for hh in cases_bool(there, True):
                    e2 = ext(e, hh)
                    if e2 is not None:
                        out.append((e2, some(field(x, "0", "Some"))))
                for hh in cases_bool(there, False):
                    e2 = ext(e, hh)
                    if e2 is not None:
                        out.append((e2, NONE))
        for g in cases_bool(t, False):
            out.append((g, NONE))
        return alt(out)
    return mapalt(v, go)


@model("Value::as_str", "Value::as_object", "Value::as_array", "Value::as_bool", "Value::get", "Value::is_null", "Value::as_u64", "Value::as_i64", "Value::is_string",
       "Value::is_object", "Value::pointer")
def value_as(c, a):
    name = n2(c.gpath)[1]
    vals = tuple(c.deep(x) for x in a)
    v = vals[0]
    if name == "get":
        if vals[1].op == "c" and vals[1].a[0] == "str" or "str" in c.tname(0):
            return json_lookup(v, vals[1])
        return mapalt(v, lambda w: mk("app", "json_get", (), (w,) + vals[1:]))
    var = {"as_str": "String", "as_object": "Object", "as_array": "Array", "as_bool": "Bool"}.get(name)
    if var:
        vs = VARIANTS.get("serde_json::value::Value") or ("Null", "Bool", "Number", "String", "Array", "Object")
        def go(w):
            t = isv(w, var, vs)
            return alt([(g, some(field(w, "0", var))) for g in cases_bool(t, True)] + [(g, NONE) for g in cases_bool(t, False)])
        return mapalt(v, go)
    if name in ("is_null", "is_string", "is_object"):
        vs = VARIANTS.get("serde_json::value::Value") or ("Null", "Bool", "Number", "String", "Array", "Object")
        return isv(v, {"is_null": "Null", "is_string": "String", "is_object": "Object"}[name], vs)
    return mk("app", name, (), vals)


@model("serde_json::to_vec", "ser::to_vec")
def json_bytes(c, a):
    """the bytes of the text"""
    return c.external(a, c.gpath[:-len("to_vec")] + "to_string")


# ---------------------------------------------------------------- randomness

@model("uuid::new_v4", "Uuid::new_v4")
def new_v4(c, a):
    return fresh(c, "uuid", a)


def fresh(c, what, a):
    key = (what, c.fr.fid if c.fr else 0, c.span)
    r = mk("fresh", what, c.fr.stack if c.fr else (), c.span)
    c.ip.event(c.st, c.fr, "call", c.gpath, tuple(a), c.span, r, tuple(c.ip.P.tstr(x) for x in c.callee.get("args") or ()), c.inst, None, c.dty)
    return r


@model("random::default_rng")
def default_rng(c, a):
    return fresh(c, "rng", a)


@model("random::fill_random")
def fill_random(c, a):
    return c.external(a)


class Models(object):
    find = staticmethod(find)


# ---------------------------------------------------------------- the core crate's errors, seen from a binding crate

CERR = "didcomm::error::Error"
RES2 = ("Ok", "Err")


def core(*names):
    def deco(f):
        for n in names:
            CORE[n] = f
        return f
    return deco


def core_error(kind, *source):
    return adt(CERR, "Error", ("kind", "source"), (kind, mk("app", "source", (), tuple(source))))


def on_failure(r, f):
    """the result, its failure replaced"""
    if r.op == "alt":
        return mapalt(r, lambda x: on_failure(x, f))
    yes, no = (isv(r, "Ok", RES2), True), (isv(r, "Err", RES2), True)
    return alt([(frozenset([yes]), ok(field(r, "0", "Ok"))), (frozenset([no]), err(f(field(r, "0", "Err"))))])


@core("ResultExt::kind", "ResultExtNoContext::kind_no_context")
def core_kind(c, a):
    r, k = c.deep(a[0]), c.deep(a[1])
    return on_failure(r, lambda e: core_error(k, e))


@core("ToResult::to_didcomm")
def core_to_didcomm(c, a):
    r, text = c.deep(a[0]), c.deep(a[1])
    return on_failure(r, lambda e: core_error(mk("app", "kind of", (), (e,)), e, text))


@core("ResultExtNoContext::to_error_kind")
def core_error_kind(c, a):
    r, k = c.deep(a[0]), c.deep(a[1])
    return on_failure(r, lambda e: k)


@core("ResultContext::context")
def core_context(c, a):
    r, text = c.deep(a[0]), c.deep(a[1])
    return on_failure(r, lambda e: core_error(field(e, "kind"), field(e, "source"), text))


@core("error::err_msg", "Error::msg", "Error::new")
def core_new(c, a):
    return core_error(c.deep(a[0]), c.deep(a[1]))


@core("Error::kind")
def core_kind_of(c, a):
    return field(c.val(a[0]), "kind")


# ---------------------------------------------------------------- shared cells: what is in them when they are read is not known

@model("RefCell::new", "Mutex::new", "Cell::new", "RwLock::new")
def cell_new(c, a):
    return mk("app", "cell", (), (c.deep(a[0]),))


@model("Mutex::lock", "RwLock::read", "RwLock::write")
def cell_lock(c, a):
    return mk("app", "locked", (), (c.deep(a[0]),))


@model("RefCell::replace", "Cell::replace", "RefCell::take", "Cell::take")
def cell_replace(c, a):
    return mk("app", "content", (), (c.deep(a[0]),))


def category(name):
    def m(c, a):
        return isv(mk("app", "classify", (), (c.val(a[0]),)), name, ("Io", "Syntax", "Data", "Eof"))
    return m


for _n in ("Io", "Syntax", "Data", "Eof"):
    model("serde_json::Error::is_" + _n.lower(), "serde_json::error::Error::is_" + _n.lower(), "Error::is_" + _n.lower())(category(_n))
