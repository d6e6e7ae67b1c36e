"""Type-check the repository's crates once through cargo, to build their
dependencies and learn the rustc command lines; results in .cache/args.json."""
import json
import os
import re
import shlex
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(V, ".cache")
PACKAGES = {"didcomm": ("shadow", "didcomm", ()), "uniffi": ("shadow-uniffi", "didcomm-uniffi", ("didcomm",)), "wasm": ("shadow-wasm", "didcomm-js", ("didcomm",))}


def toolchain_lib():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip() + "/lib"


def rustc_args(name, directory, package, deps):
    """the command lines of rustc on the package and on the dependencies given"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(CACHE, "target-" + name))
    cwd = os.path.join(V, directory)
    for q in (package,) + deps:
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "-q", "-p", q], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "+nightly", "check", "--offline", "-v", "--message-format", "short"], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = []
    for q in deps + (package,):
        for line in p.stdout.splitlines():
            m = re.search(r"Running `.*?rustc (--crate-name %s .*)`" % q.replace("-", "_"), line)
            if m:
                out.append(clean(shlex.split(m.group(1))))
                break
    if len(out) == len(deps) + 1:
        return out
    sys.stderr.write(p.stdout)
    raise SystemExit("no rustc command line for " + name)


def clean(args):
    out = []
    k = 0
    while k < len(args):
        a = args[k]
        if a == "-C" and re.match(r"(incremental|debuginfo|embed-bitcode|split-debuginfo|linker-plugin)", args[k + 1]):
            k += 2
            continue
        if a in ("--error-format", "--message-format"):
            k += 2
            continue
        if a.startswith(("--error-format", "--json", "--force-warn", "--diagnostic-width", "-Cincremental", "-Cdebuginfo")):
            k += 1
            continue
        if a.startswith("--emit"):
            a = "--emit=metadata"
        if a == "--out-dir":
            k += 2
            continue
        out.append(a)
        k += 1
    return out + ["--cap-lints", "allow"]


def main():
    os.makedirs(CACHE, exist_ok=True)
    res = {"lib": toolchain_lib(), "driver": os.path.join(V, "driver/target/debug/mirdump")}
    for name, (d, package, deps) in PACKAGES.items():
        res[name] = rustc_args(name, d, package, deps)
    json.dump(res, open(os.path.join(CACHE, "args.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
