#!/usr/bin/env python3
"""mutate.py OUT FILE[:PROP,PROP] …  — mechanical mutants of the non-test part of FILE (relative to /repo), each judged by
the rules of PROPs (all when absent), in parallel, on private copies of /repo seen at /repo through user+mount namespaces.
Development tool: shows which changes no check notices.  OUT gets one JSON object per mutant."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

W = int(os.environ.get("W", "7"))
LIMIT = int(os.environ.get("LIMIT", "0"))
KINDS = ["Malformed", "NotFound", "CryptoError" if False else "InvalidState"]


def body(text):
    m = re.search(r"^#\[cfg\(test\)\]\s*\n(pub(\(crate\))? )?mod \w+ \{", text, re.M)
    return len(text) if not m else m.start()


OPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?! *\{)(?=.*\S)", ["&&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"!(?=[a-z(])(?<![a-z]!)", [""]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"(?<!_)\bis_empty\(\)", ["is_empty() == false"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.rev\(\)", [""]), (r"\.starts_with\(", [".ends_with(", ".contains("]), (r"\.ends_with\(", [".starts_with("]),
    (r"\.contains\(", [".starts_with("]),
    (r"\.find\(", [".rfind("]), (r"\.max\(", [".min("]),
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r"(?<![\w\"#.])(\d+)(?![\w\"])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(int(m.group(1)) - 1) if int(m.group(1)) else None]),
    (r"\bSome\(([^()]*(?:\([^()]*\))*[^()]*)\)(?! *=>)(?! *=)", ["None"]),
    (r"\.sort\(\);", [";"]), (r"\.filter\([^()]*(\([^()]*(\([^()]*\))*[^()]*\))*[^()]*\)", [""]),
    (r"\.and_then\(", [".map("]), (r"\.cloned\(\)", [""]),
    (r"ErrorKind::(\w+)", [lambda m: "ErrorKind::" + ("Malformed" if m.group(1) != "Malformed" else "InvalidState")]),
    (r"\"([^\"\\]*)\"", [lambda m: '"' + m.group(1) + 'x"', lambda m: '""' if m.group(1) else None]),
    (r"&\[\]", None), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"\.unwrap_or\(false\)", [".unwrap_or(true)"]), (r"\.take\(\)", [".clone()"]),
    (r"\.as_ref\(\)", None), (r"\.or_else\(\|\| *([^()]*(\([^()]*\))*[^()]*)\)", [""]),
    (r"\.to_lowercase\(\)", [""]), (r"\.trim\(\)", [""]),
    (r"#\[serde\(default\)\]", [""]), (r"#\[serde\([^\]]*\)\]", [""]),
    (r"skip_serializing_if = \"[^\"]*\"", ["default"]), (r"#\[derive\(([^\]]*)\)\]", None),
]


def texts_only(a, b):
    """only the wording of an error message differs"""
    w = ("kind(", "err_msg(", "context(", "to_didcomm(", "expect(", "Unable", "#[error", "Failed", "nvalid", "nknown", "nsupported", " ")
    f = lambda x: re.sub(r'"[^"]*"', '""', x)
    return f(a) == f(b) and any(k in a for k in w[:-1])


def swaps(line):
    """swap adjacent simple arguments f(a, b)"""
    for m in re.finditer(r"\(([^()]+(?:\([^()]*\)[^()]*)*)\)", line):
        args = m.group(1).split(", ")
        if 2 <= len(args) <= 6:
            for i in range(len(args) - 1):
                b = args[:]
                b[i], b[i + 1] = b[i + 1], b[i]
                if b != args:
                    yield line[:m.start(1)] + ", ".join(b) + line[m.end(1):]


def mutants(text):
    end = body(text)
    head, tail = text[:end], text[end:]
    lines = head.split("\n")
    seen = set()
    names = {}
    for k, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("pub use") or s.startswith("mod ") or s.startswith("pub mod"):
            continue
        cand = []
        code = l.split(" //")[0]
        for rx, reps in OPS:
            if not reps:
                continue
            for m in re.finditer(rx, code):
                for r in reps:
                    r = r(m) if callable(r) else r
                    if r is not None:
                        cand.append(code[:m.start()] + r + code[m.end():])
        cand += list(swaps(code))
        if s.endswith(";") and not s.startswith(("let ", "}", ")", "const ", "pub const", "type ", "static", "extern")):
            cand.append("")
        if s.startswith("#["):
            cand.append("")
        if re.match(r"\.\w+\(.*\)\??[;,]?$", s):
            cand.append(re.sub(r"\.\w+\(.*\)\??", "", l))
        m = re.match(r"(\s*)(?:\} else )?if (?!let)(.*) \{$", code)
        if m:
            cand.append(code.replace("if " + m.group(2), "if false && (" + m.group(2) + ")"))
            cand.append(code.replace("if " + m.group(2), "if true || (" + m.group(2) + ")"))
        m = re.match(r"(\s*)(\w+): (.*),$", code)
        if m and "self" not in m.group(2):
            cand.append("%s%s: Default::default()," % (m.group(1), m.group(2)))
        m = re.match(r"(\s*)(\w+),$", code)
        if m and m.group(2)[0].islower():
            cand.append("%s%s: Default::default()," % (m.group(1), m.group(2)))
        if re.match(r"\s*(pub )?(async )?fn ", code) or s in ("{", "}"):
            pass
        if s.startswith("#[derive"):
            cand = []
        for c in cand:
            if texts_only(code, c):
                continue
            if c != l and (k, c) not in seen:
                seen.add((k, c))
                yield k + 1, s, c.strip(), "\n".join(lines[:k] + [c] + lines[k + 1:]) + tail
        # swap this statement with the next
        if k + 1 < len(lines) and s.endswith(";") and lines[k + 1].strip().endswith(";") and not s.startswith(("use", "}")):
            yield k + 1, s, "<swap with next>", "\n".join(lines[:k] + [lines[k + 1], l] + lines[k + 2:]) + tail
    # whole if-blocks removed
    for k, l in enumerate(lines):
        if re.match(r"\s*if .*\{$", l):
            ind = len(l) - len(l.lstrip())
            for j in range(k + 1, len(lines)):
                if lines[j].startswith(" " * ind + "}") :
                    if lines[j].strip() in ("}", "};"):
                        yield k + 1, l.strip(), "<block removed>", "\n".join(lines[:k] + lines[j + 1:]) + tail
                    break
    # whole statements over several lines removed
    for k, l in enumerate(lines):
        if re.match(r"\s*[a-z_][\w.]*(\(|\.)", l) and not l.strip().endswith(";") and l.strip().endswith(("(", ",", ")")) and not l.strip().startswith(("fn", "pub", "if", "for", "match", "let")):
            ind = len(l) - len(l.lstrip())
            for j in range(k + 1, min(k + 30, len(lines))):
                i2 = len(lines[j]) - len(lines[j].lstrip())
                if i2 <= ind and lines[j].strip().endswith(";"):
                    yield k + 1, l.strip(), "<statement removed>", "\n".join(lines[:k] + lines[j + 1:]) + tail
                    break
                if i2 < ind:
                    break


def start(i):
    d = "/tmp/mw/%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    os.makedirs(d + "/ev")
    return d


def main():
    out, specs = sys.argv[1], sys.argv[2:]
    jobs = []
    for sp in specs:
        f, _, ps = sp.partition(":")
        t = open("/repo/" + f).read()
        for n, old, new, text in mutants(t):
            jobs.append((f, ps.replace(",", " "), n, old, new, text))
    random.Random(int(os.environ.get("RND", "1"))).shuffle(jobs)
    if LIMIT:
        jobs = jobs[:LIMIT]
    print(len(jobs), "mutants", flush=True)
    q = Queue()
    for i in range(W):
        q.put(start(i))
    o = open(out, "a")

    def one(j):
        f, ps, n, old, new, text = j
        d = q.get()
        p = d + "/repo/" + f
        orig = open(p).read()
        try:
            open(p, "w").write(text)
            r = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s/repo /repo && exec timeout 300 python3 /verif/tools/runall.py %s" % (d, ps)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            try:
                res = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception:
                res = {"crash": r.stderr[-300:]}
        finally:
            open(p, "w").write(orig)
            q.put(d)
        st = "nocompile" if "type-check" in res else "crash" if "crash" in res else "caught" if any(v[0] for v in res.values()) else "undecided" if res else "quiet"
        o.write(json.dumps({"file": f, "line": n, "old": old, "new": new, "status": st, "by": {k: v for k, v in res.items()} if st != "nocompile" else 0}) + "\n")
        o.flush()
        return st
    from collections import Counter
    with ThreadPoolExecutor(W) as ex:
        print(Counter(ex.map(one, jobs)))
    for i in range(W):
        shutil.rmtree("/tmp/mw/%d" % i, ignore_errors=True)


main()
