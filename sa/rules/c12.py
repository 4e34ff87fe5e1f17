"""Replacing the bucket array: one thread at a time, on a settled current array, with a marker that never leaks."""
import re

import facts
import flow
from engine import Engine, Rule
from facts import cname, op_place, rv_operands
from rules.locks import EXITS, creates

CONT = r"^hash_(map|index|cache)::Hash(Map|Index|Cache)$"
ARR = r"^sdd::AtomicShared<.*BucketArray"
TOP = 1 << 63
ALL = (1 << 64) - 1
# Library calls a raw value may pass through (its marker is still in there) or into without harm.
PASS = re.compile(r"^std::result::Result::(ok|err|unwrap\w*|map_err)$|^std::option::Option::(Some|unwrap\w*)$|Try>::branch$"
                  r"|FromResidual>::from_residual$|^std::convert::identity$|^<.*as std::convert::(From|Into)>")
FINE = re.compile(r"^std::result::Result::is_(ok|err)$|^std::option::Option::is_(some|none)$|^std::mem::drop$|^std::hint::|fmt")


def const_of(o, env):
    v = flow.const(o)
    if v is None and op_place(o) and len(op_place(o)) == 1:
        v = env.get(op_place(o)[0])
    return v


def consts(f):
    """Locals that only ever hold one constant."""
    d = {}
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and len(s[1]) == 1:
                v = flow.const(s[2][1]) if s[2][0] == "use" else None
                if s[2][0] == "un" and s[2][1] == "Not" and flow.const(s[2][2]) is not None:
                    v = ALL ^ flow.const(s[2][2])
                d.setdefault(s[1][0], set()).add(v)
    for b in f.bb:
        t = b["t"]
        if "call" in t and len(t["d"]) == 1:
            d.setdefault(t["d"][0], set()).add(None)
    return {k: next(iter(v)) for k, v in d.items() if len(v) == 1 and None not in v}


class Taint:
    """Where the raw value of the capacity variable, marker included, may go."""

    def __init__(self, c, F, sites):
        self.c, self.F = c, F
        self.sites = {(f.id, i): n for f, i, n in sites}
        self.raw = {f.id: set() for f in F.fns.values()}
        self.ret = set()
        self.closures = set()
        self.uses = 0
        self._clean = {}
        work = {f.id for f, i, n in sites}
        while work:
            fid = work.pop()
            for g in self.local(F.fns[fid]):
                work.add(g)

    def clean(self, f):
        """{block: (locals without the marker there, locals with it)}, from the tests of the marker that dominate the block."""
        r = self._clean.get(f.id)
        if r is not None:
            return r
        ks, defs = consts(f), {}
        for i, b in enumerate(f.bb):
            for s in b["s"]:
                if s[0] == "=":
                    defs.setdefault(s[1][0], []).append((i, s))
            if "call" in b["t"]:
                defs.setdefault(b["t"]["d"][0], []).append((i, None))

        def origin(l):
            while len(defs.get(l, ())) == 1 and defs[l][0][1] is not None and defs[l][0][1][1] == [l] and defs[l][0][1][2][0] == "use":
                p = op_place(defs[l][0][1][2][1])
                if p is None or len(p) != 1:
                    break
                l = p[0]
            return l if len(defs.get(l, ())) <= 1 else None

        def test(l):
            """(local, value of the test that means there is no marker)"""
            d = defs.get(l, ())
            if len(d) != 1 or d[0][1] is None or d[0][1][2][0] != "bin":
                return None
            op, a, b = d[0][1][2][1:4]
            ka, kb = const_of(a, ks), const_of(b, ks)
            if ka is not None:
                op, a, b, ka, kb = {"L": "G", "G": "L"}.get(op[0], op[0]) + op[1:], b, a, kb, ka
            p = op_place(a)
            if kb is None or p is None or len(p) != 1:
                return None
            if (op, kb) in (("Ge", TOP), ("Gt", TOP - 1)):
                o = origin(p[0])
                return (o, 0) if o is not None else None
            if (op, kb) in (("Lt", TOP), ("Le", TOP - 1)):
                o = origin(p[0])
                return (o, 1) if o is not None else None
            if op in ("Eq", "Ne") and kb in (0, TOP):
                m = defs.get(p[0], ())
                if len(m) == 1 and m[0][1] is not None and m[0][1][2][0] == "bin" and m[0][1][2][1] == "BitAnd":
                    x = m[0][1][2][2:4]
                    for u, w in (x, x[::-1]):
                        if const_of(w, ks) == TOP and op_place(u) and len(op_place(u)) == 1 and origin(op_place(u)[0]) is not None:
                            return origin(op_place(u)[0]), int((op == "Eq") == (kb == 0))
            return None

        r = {i: (set(), set()) for i in range(len(f.bb))}
        for i, b in enumerate(f.bb):
            t = b["t"]
            if "sw" not in t or not op_place(t["sw"]) or len(op_place(t["sw"])) != 1:
                continue
            got = test(op_place(t["sw"])[0])
            if got is None or len(t["ts"]) != 1:
                continue
            l, absent = got
            for v, tgt, other in ((int(t["ts"][0][0]), t["ts"][0][1], t["o"]), (1 - int(t["ts"][0][0]), t["o"], t["ts"][0][1])):
                if tgt == other:
                    continue
                seen, work = {0}, [0]
                while work:
                    x = work.pop()
                    for y, _ in f.succ(x):
                        if not (x == i and y == tgt) and y not in seen:
                            seen.add(y)
                            work.append(y)
                for x in range(len(f.bb)):
                    if x not in seen:
                        r[x][0 if v == absent else 1].add(l)
        same = {}
        for l in range(len(f.locals)):
            o = origin(l)
            if o is not None:
                same.setdefault(o, set()).add(l)
        r = {i: tuple(set().union(*(same.get(l, {l}) for l in x)) if x else set() for x in v) for i, v in r.items()}
        self._clean[f.id] = r
        return r

    def local(self, f):
        """Propagates within one function; returns the functions to look at again."""
        F, raw, again = self.F, self.raw[f.id], set()
        clean = self.clean(f)
        ch = True
        while ch:
            n = len(raw)
            for i, b in enumerate(f.bb):
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] in ("use", "cast", "agg", "bin") and any(
                            op_place(o) and op_place(o)[0] in raw and op_place(o)[0] not in clean[i][0] for o in rv_operands(s[2])):
                        if s[2][0] == "bin" and not self.keeps(f, s[2], clean[i][1]):
                            continue
                        if s[2][0] == "agg" and (s[2][1].get("closure") or s[2][1].get("coroutine")):
                            continue
                        raw.add(s[1][0])
                    elif s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][2][0] in raw:
                        raw.add(s[1][0])
                t = b["t"]
                if "call" not in t or "fn" not in t["call"]:
                    continue
                c = t["call"]["fn"]
                nm = cname(c)
                if (f.id, i) in self.sites:
                    if re.search(r"::(load|fetch_\w+|compare_exchange\w*|swap)$", nm):
                        raw.add(t["d"][0])
                    for a in t["a"]:
                        k = F.types[f.locals[op_place(a)[0]][0]] if op_place(a) else {}
                        for g in self.closure_of(f, a):
                            if 2 not in self.raw[g]:
                                self.raw[g].add(2)
                                self.closures.add(g)
                                again.add(g)
                    continue
                g = c.get("id", -1)
                if g in self.ret:
                    raw.add(t["d"][0])
                tainted = [k for k, a in enumerate(t["a"]) if op_place(a) and op_place(a)[0] in raw and op_place(a)[0] not in clean[i][0]]
                if tainted and g in F.fns:
                    for k in tainted:
                        if k + 1 not in self.raw[g]:
                            self.raw[g].add(k + 1)
                            again.add(g)
                elif tainted and PASS.search(nm):
                    raw.add(t["d"][0])
            ch = len(raw) != n
        if 0 in raw and f.id not in self.ret and f.id not in self.closures and not f.root:
            self.ret.add(f.id)
            again |= {g.id for g in F.fns.values() if any(c.get("id", -1) == f.id for i, c in g.calls())}
        return again

    def closure_of(self, f, a):
        p = op_place(a)
        if not p:
            g = a.get("fn", {}).get("id", -1)
            return {g} if g in self.F.fns else set()
        return {s[2][1]["id"] for b in f.bb for s in b["s"]
                if s[0] == "=" and s[1] == p[:1] and s[2][0] == "agg" and s[2][1].get("closure") and s[2][1].get("id", -1) in self.F.fns}

    def keeps(self, f, rv, marked):
        """Whether a binary operation on a raw value yields one (a mask or a comparison does not, nor does taking off a marker that is there)."""
        op = rv[1].replace("Unchecked", "").replace("WithOverflow", "")
        if op == "Rem" and const_of(rv[3], consts(f)) == TOP:
            return False
        if op in ("Sub", "BitXor") and const_of(rv[3], consts(f)) == TOP and op_place(rv[2]) and op_place(rv[2])[0] in marked:
            return False
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return False
        if op == "BitAnd":
            cs = [const_of(o, consts(f)) for o in rv[2:4]]
            return not any(v is not None for v in cs)
        return True

    def check(self):
        F, c = self.F, self.c
        for f in F.fns.values():
            raw = self.raw[f.id]
            if not raw:
                continue
            ks, clean = consts(f), self.clean(f)
            if 0 in raw and f.root and F.ts(f.locals[0][0]) not in ("()", "bool"):
                c.fail("escapes:%s" % f.n, "%s returns the capacity together with the resize marker" % f.n, f.sp)
            for i, b in enumerate(f.bb):
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        ops = s[2][2:4]
                        t = [op_place(o) is not None and op_place(o)[0] in raw and op_place(o)[0] not in clean[i][0] for o in ops]
                        if any(t):
                            self.uses += 1
                            if not all(t):
                                k = const_of(ops[t.index(False)], ks)
                                op = s[2][1] if t[0] else {"L": "G", "G": "L"}.get(s[2][1][0], "") + s[2][1][1:]
                                c.ob((op, k) in (("Ge", TOP), ("Lt", TOP), ("Gt", TOP - 1), ("Le", TOP - 1)), "compares:%s" % f.n,
                                     "%s compares a capacity that may contain the resize marker" % f.n, b["sp"])
                    elif s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Mul", "Div", "Rem", "Shl", "Shr"):
                        if any(op_place(o) and op_place(o)[0] in raw and op_place(o)[0] not in clean[i][0] for o in s[2][2:4]) and \
                                not (s[2][1] == "Rem" and const_of(s[2][3], ks) == TOP):
                            c.fail("computes:%s" % f.n, "%s computes with a capacity that may contain the resize marker" % f.n, b["sp"])
                t = b["t"]
                if "sw" in t and op_place(t["sw"]) and op_place(t["sw"])[0] in raw and op_place(t["sw"])[0] not in clean[i][0] and \
                        F.ts(f.locals[op_place(t["sw"])[0]][0]) == "usize":
                    c.fail("tests:%s" % f.n, "%s tests a capacity that may contain the resize marker" % f.n, b["sp"])
                if "call" in t and "fn" in t["call"] and (f.id, i) not in self.sites:
                    n = cname(t["call"]["fn"])
                    if any(op_place(a) and op_place(a)[0] in raw and op_place(a)[0] not in clean[i][0] for a in t["a"]) and \
                            t["call"]["fn"].get("id", -1) not in F.fns:
                        self.uses += 1
                        c.ob(bool(PASS.search(n) or FINE.search(n)), "passes:%s:%s" % (f.n, n),
                             "%s passes a capacity that may contain the resize marker to %s" % (f.n, n), b["sp"])


def sets_marker(F, f, i, n, closures):
    """Whether a call on the capacity variable sets (1), clears (-1) the marker, or neither (0)."""
    t = f.bb[i]["t"]
    ks = consts(f)
    if n.endswith("::fetch_sub") or n.endswith("::fetch_xor"):
        return -1 if const_of(t["a"][1], ks) == TOP else 0
    if n.endswith("::fetch_and"):
        v = const_of(t["a"][1], ks)
        return -1 if v is not None and not v & TOP else 0
    if n.endswith("::fetch_or"):
        return 2 if const_of(t["a"][1], ks) == TOP else 0
    if n.endswith("::fetch_update"):
        for g in closures(f, t["a"][-1]):
            if adds_top(F, g):
                return 1
        return 0
    if "::compare_exchange" in n:
        p = op_place(t["a"][2])
        return 1 if p and any(s[0] == "=" and s[1] == p[:1] and is_top(f, s[2]) for b in f.bb for s in b["s"]) else 0
    return 0


def is_top(f, rv):
    if rv[0] == "use" and op_place(rv[1]):
        q = op_place(rv[1])
        return any(s[0] == "=" and s[1] == q[:1] and s[2][0] == "bin" and is_top(f, s[2]) for b in f.bb for s in b["s"])
    return rv[0] == "bin" and rv[1].startswith(("Add", "BitOr")) and any(const_of(o, consts(f)) == TOP for o in rv[2:4])


def adds_top(F, i):
    g = F.fns[i]
    return any(is_top(g, s[2]) for b in g.bb for s in b["s"] if s[0] == "=" and s[2][0] == "bin") or \
        any(adds_top(F, h) for h in creates(g) if h in F.fns)


class Marker(Rule):
    """q = (marker set by us, the array was looked up again since, it is the one examined, no old array is linked)"""
    tracked = re.compile(r"^sdd::(AtomicShared::(load|is_null|tag)|Ptr::)|cmp::PartialEq|^std::ptr::(eq|addr_eq)$")

    def __init__(self, F, marks, arrays, links):
        super().__init__(F)
        self.marks, self.arrays, self.links = marks, arrays, links
        self.seen = {"set": set(), "cleared": set(), "replaced": set(), "first": set()}

    def events(self):
        return {k[0] for k in list(self.marks) + list(self.arrays) + list(self.links)}

    def on_call(self, cx, c, args, q):
        n = cname(c)
        m, again, same, lone = q
        k = self.marks.get(cx.site)
        if k in (1, 2):
            self.seen["set"].add(cx.site)
            if m:
                self.E.report(cx, "twice:%s" % cx.f.n, "%s sets the resize marker while it holds it" % cx.f.n)
            if k == 2:
                return [("ret", (1, 0, 0, lone), ("i", 0)), ("ret", q, ("i", TOP))]
            return [("ret", (1, 0, 0, lone), ("agg", "std::result::Result", 0, (None,), 0)),
                    ("ret", q, ("agg", "std::result::Result", 1, (None,), 1))]
        if k == -1:
            self.seen["cleared"].add(cx.site)
            if not m:
                self.E.report(cx, "steals:%s" % self.who(cx), "%s clears a resize marker it has not set" % self.who(cx))
            return [("ret", (0, 0, 0, lone), None)]
        if cx.site in self.arrays and n.startswith("sdd::AtomicShared::"):
            op = n.rsplit("::", 1)[1]
            if op == "load":
                return [("ret", (m, m, same, lone), ("call", n, (("fld", "@array", None),), cx.site))]
            if op == "compare_exchange" and len(args) > 1 and args[1] is not None and args[1][:2] == ("call", "sdd::Ptr::null"):
                self.seen["first"].add(cx.site)
                return None
            if op in ("swap", "compare_exchange", "compare_exchange_weak", "update_tag_if") and not self.owned(cx):
                self.seen["replaced"].add(cx.site)
                w = self.who(cx)
                if not m:
                    self.E.report(cx, "unmarked:%s" % w, "%s replaces the bucket array without having set the resize marker" % w)
                elif not same:
                    self.E.report(cx, "stale:%s" % w, "%s replaces the bucket array without checking, with the marker set, that it "
                                  "is still the one it examined" % w)
                if not lone:
                    self.E.report(cx, "linked:%s" % w, "%s replaces the bucket array although an old array may still be linked to it" % w)
        if cx.site in self.links and n.endswith(("::load", "::is_null")):
            return [("ret", q, ("call", n, (("fld", "@linked", None),), cx.site))]
        return None

    def owned(self, cx):
        for f in (cx.f,) + tuple(cx.stack):
            if f.argc and self.F.ts(f.locals[1][0]).startswith("&mut hash_"):
                return True
        return False

    def who(self, cx):
        for f in (cx.f,) + tuple(reversed(cx.stack)):
            if "{closure" not in f.n and not f.n.startswith("<"):
                return f.n
        return cx.f.n

    def on_branch(self, cx, val, fact, q):
        m, again, same, lone = q
        if val is None:
            return q
        t = fact[1] != 0 if fact[0] == "=" else (True if 0 in fact[1] else None)
        v = val
        while v[0] == "not":
            v, t = v[1], None if t is None else not t
        loads = list(self.loads(v))
        if m and again and "@array" in loads:
            if v[0] == "call" and v[1].endswith(("::ne", "::eq", "addr_eq")):
                if t is not None and t == (not v[1].endswith("::ne")):
                    same = 1
            elif v[0] == "bin" or v[0] == "eq":
                same = 1
        if "@linked" in loads:
            if v[0] == "call" and v[1].endswith("is_null"):
                lone = int(t) if t is not None else lone
            elif v[0] == "disc":
                lone = 1 if t is False else 0
        return (m, again, same, lone)

    def loads(self, v):
        if isinstance(v, tuple):
            if v and v[0] == "fld" and isinstance(v[1], str) and v[1][:1] == "@":
                yield v[1]
            for x in v:
                if isinstance(x, tuple):
                    yield from self.loads(x)


def check(c):
    c.rule = ("raw reads of the capacity variable (resize marker included) flow only into masks, the same variable's updates and "
              "tests of the marker; on every path of every hash-table operation the marker is set before the bucket array is "
              "replaced, the array is re-validated and unlinked by then, and the setter alone clears it before the path ends")
    F = facts.load()
    M = flow.fields_of_type(F, CONT, r"Atomic<usize>$")
    A = flow.fields_of_type(F, CONT, ARR)
    acc = set().union(set(), *flow.accessors(F).values())
    A = (A & acc) or A
    L = flow.fields_of_type(F, r"BucketArray$", ARR)
    ms = flow.sites_on(F, M, r"atomic::Atomic::")
    arr = flow.sites_on(F, A, r"^sdd::AtomicShared::")
    T = Taint(c, F, ms)
    T.check()
    marks = {(f.id, i): sets_marker(F, f, i, n, T.closure_of) for f, i, n in ms}
    marks = {k: v for k, v in marks.items() if v}
    links = {(f.id, i) for f, i, n in flow.sites_on(F, L, r"^sdd::AtomicShared::")}
    r = Marker(F, marks, {(f.id, i) for f, i, n in arr}, links)
    E = Engine(F, r, max_states=4000000)
    n = roots = 0
    for f in F.roots():
        if f.id not in E.interesting:
            continue
        roots += 1
        for kind, q, v in E.run_root(f.id, (0, 0, 0, 0)):
            n += 1
            if q[0]:
                c.fail("kept:%s" % f.n, "%s %s with the resize marker still set" % (f.n, EXITS[kind]), f.n)
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    c.count(n)
    c.floor("operations interpreted", roots, 100)
    c.count(T.uses)
    c.floor("accesses of the capacity variable", len(ms), 10)
    for k, least in (("set", 3), ("cleared", 3), ("replaced", 6)):
        c.floor("marker " + k if k != "replaced" else "replacements of the bucket array", len(r.seen[k]), least)
    c.analysed["abstract states"] = E.nstates
