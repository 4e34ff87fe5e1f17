"""Builds the MIR facts of /repo's current tree and indexes them."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCC_REPO", "/repo")
CACHE = os.environ.get("SCC_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(CACHE, "driver", "release", "sccfacts")
TOOLCHAIN = "nightly"


class ToolError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("RUSTC") or k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    # The analysed program is the release one: debug assertions state invariants, they do not establish them.
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
    return env


def sysroot():
    return subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], check=True, capture_output=True,
                          text=True, env=_env()).stdout.strip()


def build_driver(force=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(CACHE, "driver.stamp")
        src = open(os.path.join(DRIVER_DIR, "src", "main.rs"), "rb").read()
        h = hashlib.sha256(src).hexdigest()
        if not force and os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        r = subprocess.run(["cargo", "+" + TOOLCHAIN, "build", "--release", "--offline", "--manifest-path",
                            os.path.join(DRIVER_DIR, "Cargo.toml"), "--target-dir", os.path.join(CACHE, "driver")],
                           capture_output=True, text=True, env=_env())
        if r.returncode != 0:
            raise ToolError("driver build failed:\n" + r.stderr[-4000:])
        open(stamp, "w").write(h)


CONFIGS = {
    "serde": ["--features", "serde"],
    "equivalent": ["--features", "equivalent"],
}


def ensure_lock():
    """Cargo.lock is not tracked in /repo: the resolution everything was fetched for."""
    p = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(p) and os.path.exists("/opt/vp/Cargo.lock"):
        with open("/opt/vp/Cargo.lock") as f, open(p, "w") as g:
            g.write(f.read())


def repo_digest():
    h = hashlib.sha256(b"release")
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(DRIVER_DIR, "src", "main.rs"), "rb").read())
    return h.hexdigest()


def build_facts(config="serde"):
    """Always derived from the current source: the cached file is keyed by the digest of every source file."""
    build_driver()
    ensure_lock()
    target = os.path.join(CACHE, "t-" + config)
    with open(os.path.join(CACHE, "facts-%s.lock" % config), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dg = repo_digest()
        out = os.path.join(CACHE, "facts-%s.json" % config)
        stamp = out + ".stamp"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == dg:
            return out
        for p in (out, stamp):
            if os.path.exists(p):
                os.remove(p)
        env = _env()
        env["SCCFACTS_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        for attempt in range(2):
            # Cargo does not re-run the wrapper on a fresh unit: drop the unit's own output first.
            for sub in ("debug/build/scc", "debug/incremental"):
                subprocess.run(["rm", "-rf", os.path.join(target, sub)])
            fp = os.path.join(target, "debug/.fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("scc-"):
                        subprocess.run(["rm", "-rf", os.path.join(fp, d)])
            r = subprocess.run(["cargo", "+" + TOOLCHAIN, "check", "--lib", "--offline", "--manifest-path",
                                os.path.join(REPO, "Cargo.toml"), "--target-dir", target] + CONFIGS[config],
                               capture_output=True, text=True, env=env, cwd="/")
            if os.path.exists(out):
                break
            if attempt == 0:
                subprocess.run(["rm", "-rf", target])
        if not os.path.exists(out):
            raise ToolError("facts were not produced:\n" + r.stderr[-4000:])
        open(stamp, "w").write(dg)
        return out


class Fn:
    __slots__ = ("id", "n", "root", "cor", "uns", "asy", "pub", "sig", "parent", "ga", "sp", "argc", "locals",
                 "dbg", "bb", "F", "_calls", "_succ", "_live", "_loops", "_mutb", "_regs", "_ctrs")

    def __init__(self, F, d):
        self.F = F
        self.id = d["id"]
        self.n = d["n"]
        self.root = d["root"]
        self.cor = d["cor"]
        self.uns = d.get("unsafe", False)
        self.asy = d.get("async", False)
        self.pub = d.get("pub", False)
        self.sig = d.get("sig", "")
        self.parent = d["parent"]
        self.ga = d["ga"]
        self.sp = d["sp"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.dbg = d["dbg"]
        self.bb = d["bb"]
        fold_constants(self)
        self._calls = None
        self._succ = None
        self._live = None
        self._loops = None
        self._mutb = self._regs = self._ctrs = None

    def lty(self, l):
        return self.F.types[self.locals[l][0]]

    def lname(self, l):
        x = self.locals[l]
        return x[1] if len(x) > 1 else None

    def __repr__(self):
        return "<%d %s>" % (self.id, self.n)

    def succ(self, i, unwind=True):
        """(successor, kind) of a block."""
        t = self.bb[i]["t"]
        out = []
        if "g" in t:
            out.append((t["g"], "n"))
        elif "sw" in t:
            for v, b in t["ts"]:
                out.append((b, "n"))
            out.append((t["o"], "n"))
        elif "drop" in t:
            out.append((t["t"], "n"))
            if t["u"] >= 0 and unwind:
                out.append((t["u"], "u"))
        elif "call" in t:
            if t["t"] >= 0:
                out.append((t["t"], "n"))
            if t["u"] >= 0 and unwind:
                out.append((t["u"], "u"))
        elif "as" in t:
            out.append((t["t"], "n"))
            if t["u"] >= 0 and unwind:
                out.append((t["u"], "u"))
        elif "y" in t:
            out.append((t["t"], "n"))
            if t["dr"] >= 0:
                out.append((t["dr"], "d"))
        return out

    def calls(self):
        """[(block, callee dict)] of every direct call."""
        if self._calls is None:
            self._calls = []
            for i, b in enumerate(self.bb):
                t = b["t"]
                if "call" in t and "fn" in t["call"]:
                    self._calls.append((i, t["call"]["fn"]))
        return self._calls

    def edges(self):
        """Ids of the local instances this one can run: callees, closures and coroutines it creates, drop glue."""
        out = set()
        for i, b in enumerate(self.bb):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg":
                    k = s[2][1]
                    if k.get("id", -1) >= 0:
                        out.add(k["id"])
                if s[0] == "=":
                    for op in rv_operands(s[2]):
                        if "fn" in op and "id" in op["fn"]:
                            out.add(op["fn"]["id"])
            t = b["t"]
            if "call" in t:
                c = t["call"]
                if "fn" in c and "id" in c["fn"]:
                    out.add(c["fn"]["id"])
                for a in t["a"]:
                    if "fn" in a and "id" in a["fn"]:
                        out.add(a["fn"]["id"])
            elif "drop" in t:
                for g in self.F.types[t["ty"]].get("glue", []):
                    if "id" in g:
                        out.add(g["id"])
        return out

    def loops(self):
        """Natural loops: list of (header, frozenset(body)) over the CFG without unwind edges."""
        if self._loops is None:
            self._loops = natural_loops(self)
        return self._loops

    def mut_borrowed(self):
        if self._mutb is None:
            s = set()
            for b in self.bb:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] in ("ref", "raw") and st[2][1] == "mut" and "*" not in st[2][2][1:]:
                        s.add(st[2][2][0])
            self._mutb = s
        return self._mutb

    def counters(self):
        """Range locals that are only ever changed by assignments and by Iterator::next."""
        r = self._ctrs
        if r is None:
            temps, bad, used = {}, set(), {}
            for b in self.bb:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] in ("ref", "raw") and st[2][1] == "mut":
                        p = st[2][2]
                        if "*" not in p[1:] and self.F.types[self.locals[p[0]][0]].get("adt") == "std::ops::Range":
                            if len(p) > 1 or len(st[1]) > 1:
                                bad.add(p[0])
                            else:
                                temps[st[1][0]] = p[0]
                        elif p[0] in temps and p[1:] == ["*"] and len(st[1]) == 1:
                            temps[st[1][0]] = temps[p[0]]
                            used[p[0]] = used.get(p[0], 0) + 1
                t = b["t"]
                if "call" in t:
                    for o in t["a"]:
                        p = op_place(o)
                        if p and p[0] in temps:
                            used[p[0]] = used.get(p[0], 0) + 1
                            if not cname(t["call"].get("fn") or {"n": ""}).endswith(("Iterator>::next", "Iterator::any", "Iterator::all", "Iterator::find",
                                                                                      "Iterator::position")):
                                bad.add(temps[p[0]])
            r = self._ctrs = {l for x, l in temps.items()} - bad - {l for x, l in temps.items() if used.get(x, 0) != 1}
        return r

    def registers(self):
        """Option locals that are only ever changed by assignments and by Option::{replace, insert, take}."""
        if self._regs is None:
            bad, temps = set(), {}
            for b in self.bb:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] in ("ref", "raw") and st[2][1] == "mut" and "*" not in st[2][2][1:]:
                        l = st[2][2][0]
                        if len(st[2][2]) > 1 or len(st[1]) > 1 or self.F.types[self.locals[l][0]].get("adt") != "std::option::Option":
                            bad.add(l)
                        else:
                            temps[st[1][0]] = l
                    elif st[0] == "=" and len(st[1]) > 1 and "*" not in st[1][1:]:
                        bad.add(st[1][0])
            ok = {}
            for b in self.bb:
                t = b["t"]
                if "call" in t and re.search(r"^std::option::Option::(replace|insert|take)$", cname(t["call"].get("fn") or {"n": ""})):
                    p = op_place(t["a"][0])
                    if p and len(p) == 1:
                        ok.setdefault(p[0], 0)
                        ok[p[0]] += 1
            uses = {}
            for b in self.bb:
                for st in b["s"]:
                    if st[0] == "=":
                        for o in rv_operands(st[2]):
                            p = op_place(o)
                            if p:
                                uses[p[0]] = uses.get(p[0], 0) + 1
                        if st[2][0] in ("ref", "raw") and st[2][2][0] in temps:
                            uses[st[2][2][0]] = uses.get(st[2][2][0], 0) + 1
                t = b["t"]
                for o in t.get("a", []) if "call" in t else []:
                    p = op_place(o)
                    if p:
                        uses[p[0]] = uses.get(p[0], 0) + 1
            for tmp, l in temps.items():
                if ok.get(tmp, 0) != 1 or uses.get(tmp, 0) != 1:
                    bad.add(l)
            self._regs = set(temps.values()) - bad
        return self._regs


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def rv_places(rv):
    k = rv[0]
    out = []
    for o in rv_operands(rv):
        p = o.get("c") or o.get("m")
        if p:
            out.append(p)
    if k in ("ref", "raw"):
        out.append(rv[2])
    if k == "discr":
        out.append(rv[1])
    return out


def op_place(o):
    return o.get("c") or o.get("m")


_OPS = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Gt": lambda a, b: a > b,
        "Le": lambda a, b: a <= b, "Ge": lambda a, b: a >= b}


def fold_constants(f):
    """Removes the branches the instance's constants decide (`TYPE == INDEX`, `TRY_LOCK`, `cfg!(debug_assertions)`)."""
    assigns, borrowed = {}, set()
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=":
                assigns.setdefault(s[1][0], []).append(s[2] if len(s[1]) == 1 else None)
                if s[2][0] in ("ref", "raw"):
                    borrowed.add(s[2][2][0])
            elif s[0] == "setd":
                assigns.setdefault(s[1][0], []).append(None)
        t = b["t"]
        if "call" in t:
            assigns.setdefault(t["d"][0], []).append(None)
        elif "y" in t:
            assigns.setdefault(t["ra"][0], []).append(None)
    for l in range(1, f.argc + 1):
        assigns.setdefault(l, []).append(None)
    const = {}

    def val(o):
        if "k" in o:
            v = o.get("v")
            return int(v) if v is not None and v.lstrip("-").isdigit() else None
        p = o.get("c") or o.get("m")
        return const.get(p[0]) if len(p) == 1 else None
    cand = [(l, a[0]) for l, a in assigns.items() if len(a) == 1 and a[0] is not None and l not in borrowed]
    ch = True
    while ch:
        ch = False
        for l, rv in cand:
            if l in const:
                continue
            v = None
            if rv[0] == "use":
                v = val(rv[1])
            elif rv[0] == "bin" and rv[1] in _OPS:
                a, b = val(rv[2]), val(rv[3])
                if a is not None and b is not None:
                    v = int(_OPS[rv[1]](a, b))
            elif rv[0] == "un" and rv[1] == "Not" and f.lty(l)["s"] == "bool":
                a = val(rv[2])
                if a is not None:
                    v = 1 - a
            if v is not None:
                const[l] = v
                ch = True
    for b in f.bb:
        t = b["t"]
        if "sw" in t:
            v = val(t["sw"])
            if v is not None:
                b["t"] = {"g": next((x for k, x in t["ts"] if int(k) == v), t["o"])}
    seen, st = {0}, [0]
    while st:
        for x, _ in f.succ(st.pop()):
            if x not in seen:
                seen.add(x)
                st.append(x)
    for i, b in enumerate(f.bb):
        if i not in seen:
            b["s"], b["t"] = [], {"r": "unreachable"}


def natural_loops(f):
    n = len(f.bb)
    succ = [[s for s, k in f.succ(i, unwind=False)] for i in range(n)]
    order, seen, st = [], [False] * n, [(0, iter(succ[0]))]
    seen[0] = True
    while st:
        u, it = st[-1]
        for v in it:
            if not seen[v]:
                seen[v] = True
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for u in rpo:
        for v in succ[u]:
            if v in preds:
                preds[v].append(u)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for u in rpo:
        for v in succ[u]:
            if v in idom and dom(v, u):
                body = {v, u}
                st = [u] if u != v else []
                while st:
                    x = st.pop()
                    for p in preds[x]:
                        if p not in body:
                            body.add(p)
                            st.append(p)
                loops.setdefault(v, set()).update(body)
    return [(h, frozenset(b)) for h, b in loops.items()]


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.all = d["all"]
        self.fns = {}
        for x in d["fns"]:
            f = Fn(self, x)
            self.fns[f.id] = f
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f.n, []).append(f)
        self._edges = {i: f.edges() for i, f in self.fns.items()}
        self._rev = {}
        for i, es in self._edges.items():
            for e in es:
                self._rev.setdefault(e, set()).add(i)

    def roots(self):
        return [f for f in self.fns.values() if f.root]

    def named(self, name):
        return self.by_name.get(name, [])

    def ts(self, g):
        """Generic argument to string."""
        return self.types[g]["s"] if isinstance(g, int) else g

    def callers_closure(self, ids):
        """Every instance that can reach one of the ids (including them)."""
        seen = set(ids)
        st = list(ids)
        while st:
            x = st.pop()
            for p in self._rev.get(x, ()):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def reach(self, start, stop=lambda f: False):
        """Ids reachable from start with a parent map; does not go through instances for which stop() holds."""
        par = {start: None}
        st = [start]
        while st:
            x = st.pop()
            if stop(self.fns[x]) and x != start:
                continue
            for e in sorted(self._edges[x]):
                if e not in par and e in self.fns:
                    par[e] = x
                    st.append(e)
        return par

    def chain(self, par, x):
        out = []
        while x is not None:
            out.append(self.fns[x].n)
            x = par[x]
        return out[::-1]


def cname(fn):
    """Name of the resolved callee."""
    return fn.get("rn") or fn["n"]


_LOADED = {}


def load(config="serde"):
    if config not in _LOADED:
        _LOADED[config] = Facts(build_facts(config))
    return _LOADED[config]


if __name__ == "__main__":
    t = time.time()
    F = load(sys.argv[1] if len(sys.argv) > 1 else "serde")
    print(len(F.fns), "instances", time.time() - t, "s")
