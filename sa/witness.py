"""Compiles the type-level witnesses against /repo's current crate."""
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import subprocess
import tempfile

from facts import CACHE, REPO, VERIF, ToolError, _env, ensure_lock

WIT = os.path.join(VERIF, "witness")


def env():
    e = _env()
    have = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    if "1.92.0" in have:
        e["RUSTUP_TOOLCHAIN"] = "1.92.0"
    e["RUSTFLAGS"] = "--cap-lints=allow"
    return e


def build_lib():
    """(path of libscc.rmeta, deps dir) of the current tree."""
    ensure_lock()
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, "t-witness")
    e = env()
    r = subprocess.run(["cargo", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "--target-dir", target, "--message-format=json"], capture_output=True, text=True, env=e, cwd="/")
    out = None
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "scc":
            out = [f for f in d["filenames"] if f.endswith(".rmeta")][0]
    if r.returncode != 0 or out is None:
        raise ToolError("the crate does not build:\n" + r.stderr[-3000:])
    return out, os.path.join(target, "debug", "deps"), e


def rustc(lib, deps, e, src, tmp, name, kind="bin"):
    p = os.path.join(tmp, name + ".rs")
    with open(p, "w") as f:
        f.write(src)
    r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", kind, "--crate-name", re.sub(r"\W", "_", name),
                        "--emit=metadata", "--error-format=json", "--cap-lints=allow", "-o", p + ".meta", "-L",
                        "dependency=" + deps, "--extern", "scc=" + lib, p], capture_output=True, text=True, env=e, cwd=tmp)
    errs = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and (d.get("spans") or d.get("code")):
            sp = [s for s in d["spans"] if s["is_primary"]] or [{"line_start": 0, "text": []}]
            errs.append({"code": (d.get("code") or {}).get("code", ""), "msg": d["message"], "line": sp[0]["line_start"],
                         "text": sp[0]["text"][0]["text"].strip() if sp[0]["text"] else "",
                         "notes": [c["message"] for c in d.get("children", [])][:6]})
    return r.returncode, errs, r.stderr


def parse(path):
    prelude, cases, cur, part = "", [], None, None
    for l in open(path):
        if l.startswith("#") and part is None:
            continue
        if l.startswith("== prelude"):
            part = "prelude"
        elif l.startswith("== case"):
            w = l.split()
            cur = {"name": w[2], "code": w[3] if len(w) > 3 else "", "bad": "", "good": ""}
            cases.append(cur)
            part = None
        elif l.startswith("-- bad"):
            part = "bad"
        elif l.startswith("-- good"):
            part = "good"
        elif part == "prelude":
            prelude += l
        elif part:
            cur[part] += l
    return prelude, cases


def run_cases(path):
    """Every case: (name, ok, message)."""
    lib, deps, e = build_lib()
    prelude, cases = parse(path)
    tmp = tempfile.mkdtemp(prefix="wit")
    try:
        def one(c):
            out = []
            for part in ("bad", "good"):
                src = "#![allow(warnings)]\n" + prelude + "\nfn main() {\n" + c[part] + "}\n"
                out.append(rustc(lib, deps, e, src, tmp, c["name"].replace("-", "_") + "_" + part))
            (rb, eb, sb), (rg, eg, sg) = out
            if rb == 0:
                return c, "accepted", "the compiler accepts: " + " ".join(c["bad"].split())
            if rg != 0:
                return c, "twin", "the compiling twin is refused (%s): %s" % (
                    "; ".join(x["msg"] for x in eg[:2]) or sg[:300], " ".join(c["good"].split()))
            codes = {x["code"] for x in eb}
            if c["code"] and c["code"] not in codes:
                return c, "code", "refused with %s instead of %s: %s" % (sorted(codes), c["code"], eb[0]["msg"] if eb else sb[:200])
            return c, "ok", ",".join(sorted(codes)) or "lifetime error"
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, cases))
    finally:
        shutil.rmtree(tmp)


def run_pass(name):
    """Errors of a witness that must compile."""
    lib, deps, e = build_lib()
    tmp = tempfile.mkdtemp(prefix="wit")
    try:
        src = open(os.path.join(WIT, name)).read()
        rc, errs, raw = rustc(lib, deps, e, src, tmp, "w_" + name.replace(".rs", ""), "lib")
        if rc != 0 and not errs:
            raise ToolError("witness: " + raw[-2000:])
        return src, errs
    finally:
        shutil.rmtree(tmp)


def run_src(src):
    """Errors of a small program that uses nothing but std."""
    lib, deps, e = build_lib()
    tmp = tempfile.mkdtemp(prefix="wit")
    try:
        return rustc(lib, deps, e, src, tmp, "w_src", "lib")[1]
    finally:
        shutil.rmtree(tmp)
