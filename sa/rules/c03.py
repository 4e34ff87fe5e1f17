"""References obtained under an epoch guard are not followed after the guard was let go at a suspension point."""
import re

import facts
import flow
from engine import Engine, Rule
from facts import cname
from rules.c12 import ARR, CONT
from rules.locks import ACQ_EXCL, ACQ_SHARE, POISON, acq_mode, rel_mode

GUARD = "sdd::Guard"
OPTG = re.compile(r"^(&(mut )?|\*(const|mut) )*std::option::Option<sdd::Guard>$")


# Library calls whose result points to where their argument points.
DERIVE = re.compile(r"^sdd::(Ptr|Shared)::(as_|get|into|deref)|^(std::ptr::.*|\*(const|mut) T|std::slice::.*)::(wrapping_|byte_)?(add|offset|sub|get|get_unchecked|as_ref|as_mut)$")


def loads(v, out):
    """The bucket arrays (as loaded) a value was computed from."""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "fld" and isinstance(v[1], str) and v[1][:1] == "@":
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                loads(x, out)
    return out


class Refs(Rule):
    """q = (epoch, revalidated loads of earlier epochs, what each held lock pins, guards that exist)."""
    wants_use = True
    tracked = re.compile(r"^saa::")

    def __init__(self, F, sites, claims):
        super().__init__(F)
        self.sites, self.claims = sites, claims
        self.seen = {"loads": set(), "suspensions": set(), "guard resets": set(), "dereferences": set(), "locks awaited": set()}
        self.cache = {}

    def events(self):
        ev = {k[0] for k in list(self.sites) + list(self.claims)}
        for f in self.F.fns.values():
            if any(acq_mode(cname(c)) or rel_mode(cname(c)) or POISON.match(cname(c)) for i, c in f.calls()):
                ev.add(f.id)
            elif any(OPTG.match(self.F.ts(l[0])) for l in f.locals):
                ev.add(f.id)
        return ev

    def loads(self, v):
        r = self.cache.get(v)
        if r is None:
            r = self.cache[v] = frozenset(loads(v, set()))
        return r

    def short(self, v):
        """The loads of a value, without how it was computed from them."""
        ls = self.loads(v) if v is not None else ()
        return ("agg", "from", None, tuple(sorted(ls, key=repr)), None) if ls else None

    def stale(self, v, q):
        if v is None:
            return False
        return any(int(x[1][-1]) != q[0] and x not in q[1] for x in self.loads(v))

    def lapse(self, q):
        """Nothing protects what was loaded so far any more."""
        return ((q[0] + 1) % 2, frozenset(), frozenset(), q[3])

    def dest(self, cx):
        t = cx.f.bb[cx.bb]["t"]
        return self.F.ts(cx.f.locals[t["d"][0]][0]) if "call" in t and len(t["d"]) == 1 else ""

    def on_call(self, cx, c, args, q):
        n = cname(c)
        e, reval, pins, guards = q
        if self.dest(cx) == "async_helper::AsyncGuard":
            return [("ret", q, ("call", "guard", (), cx.site))]
        if n in ("sdd::Guard::new", "sdd::Guard::default") or self.dest(cx) == GUARD and not n.startswith("std::"):
            return [("ret", (e, reval, pins, guards | {("sync", cx.site)}), ("call", "sync", (), cx.site))]
        if cx.site in self.sites and n == "sdd::AtomicShared::load":
            self.seen["loads"].add(cx.site)
            return [("ret", q, ("call", "load", (("fld", "@%s%d" % ("l" if args[0] is not None and self.loads(args[0]) else "a", e), None),), (0, 0)))]
        g = c.get("ga", [])
        if n.startswith("std::option::Option::") and g and self.F.ts(g[0]) == GUARD:
            m = n.rsplit("::", 1)[1]
            if m in ("get_or_insert_with", "get_or_insert", "insert", "replace", "get_or_insert_default"):
                return [("ret", (e, reval, pins, guards | {args[0]}), None)]
            if m in ("is_some", "is_none"):
                return [("ret", q, ("i", int((args[0] in guards) == (m == "is_some"))))]
            if m == "take":
                return [("ret", self.reset(cx, args[0], q), None)]
        if n in ("std::ptr::eq", "std::ptr::addr_eq") or n.endswith(("cmp::PartialEq::eq", "cmp::PartialEq::ne")) and "Ptr" in self.argt(cx):
            a, b = self.loads(args[0]) if args[0] else frozenset(), self.loads(args[1]) if args[1] else frozenset()
            sa, sb = self.stale(args[0], q), self.stale(args[1], q)
            if sa != sb:
                eq = int(not n.endswith("ne"))
                return [("ret", (e, self.reval(q, a | b), pins, guards), ("i", eq)), ("ret", q, ("i", 1 - eq))]
            return None
        if acq_mode(n):
            if "_async" in n:
                self.seen["locks awaited"].add(cx.site)
                return [("ret", q, ("call", n, (self.short(args[0]),) + args[1:], cx.site))]
            return [("ret", self.pin(q, args[0]), ("i", 1)), ("ret", q, ("i", 0))]
        if rel_mode(n) or POISON.match(n):
            return [("ret", self.unpin(q, args[0]), ("i", 1))]
        if cx.site in self.claims:
            # A rehashing claim keeps the old array, and with it the current one, until it is given back.
            m = n.rsplit("::", 1)[1]
            if m == "fetch_add":
                return [("ret", (e, reval, pins | {"claim"}, guards), None)]
            if m == "fetch_sub":
                return [("ret", self.unpin(q, "claim"), None)]
            if m.startswith("compare_exchange") or m in ("fetch_update", "try_update"):
                done = self.unpin(q, "claim") if "claim" in pins else (e, reval, pins | {"claim"}, guards)
                return [("ret", done, ("agg", "std::result::Result", 0, (None,), 0)), ("ret", q, ("agg", "std::result::Result", 1, (None,), 1))]
        if DERIVE.search(n) and args and args[0] is not None and self.loads(args[0]):
            return [("ret", q, ("call", "at", (self.short(args[0]),), (0, 0)))]
        return None

    def argt(self, cx):
        t = cx.f.bb[cx.bb]["t"]
        return " ".join(self.F.ts(cx.f.locals[(o.get("c") or o.get("m"))[0]][0]) for o in t["a"] if o.get("c") or o.get("m"))

    def pin(self, q, v):
        ls = self.loads(v) if v is not None else frozenset()
        # The lock of an old array's bucket keeps the current array (it cannot be replaced before) as well.
        return (q[0], self.reval(q, ls), q[2] | {self.kind(ls)} if ls else q[2], q[3])

    def reval(self, q, ls):
        if self.kind(ls) == "l":
            ls = ls | {("fld", "@a0", None), ("fld", "@a1", None)}
        return q[1] | frozenset(x for x in ls if int(x[1][-1]) != q[0])

    def kind(self, ls):
        return "l" if any(x[1][1] == "l" for x in ls) else "a" if ls else "?"

    def unpin(self, q, v):
        pins = q[2] - {v if isinstance(v, str) else self.kind(self.loads(v) if v is not None else frozenset())}
        if not pins and q[2] and not q[3]:
            return self.lapse(q)
        return (q[0], q[1], pins, q[3])

    def reset(self, cx, v, q):
        self.seen["guard resets"].add(cx.site)
        e, reval, pins, guards = q
        q = (e, reval, pins, guards - {v})
        if v in guards and not q[3] and not pins:
            return self.lapse(q)
        return q

    def on_drop(self, cx, T, v, q):
        if T["k"] == "adt" and T["adt"] == "std::option::Option" and T.get("a") and self.F.ts(T["a"][0]) == GUARD:
            return [("ret", self.reset(cx, v, q))]
        if T["k"] == "adt" and T["adt"] == GUARD:
            g = ("sync", v[3]) if v is not None and v[:2] == ("call", "sync") else None
            return [("ret", (q[0], q[1], q[2], frozenset(x for x in q[3] if x[0] != "sync" or g and x != g)))]
        if T["k"] == "adt" and T["adt"] == "async_helper::AsyncGuard":
            return [("ret", (q[0], q[1], q[2], frozenset(g for g in q[3] if g[0] == "sync" or self.root(g) != v)))]
        return None

    def root(self, v):
        while v is not None and v[0] in ("fld", "dc"):
            v = v[2]
        return v

    def poll_extern(self, cx, fut, q):
        if fut is not None and fut[0] == "call" and acq_mode(fut[1]):
            ps = {q}
            for a in fut[2][1:]:
                if a is not None and a[0] in ("agg", "fnitem"):
                    r = self.E.run_closure(a, (), q, cx.stack, cx.f)
                    if r is not None:
                        ps = {q2 for k, q2, v in r if k == "ret"}
            return [(self.pin(q, fut[2][0]), ("i", 1)), (q, ("i", 0))], list(ps)
        return Rule.poll_extern(self, cx, fut, q)

    def on_yield(self, cx, q):
        self.seen["suspensions"].add((cx.f.id, cx.bb))
        if any(x[0] != "sync" for x in q[3]):
            self.E.report(cx, "held:%s" % cx.f.n, "%s suspends while the epoch guard of its AsyncGuard exists (the task may be resumed "
                          "on another thread)" % cx.f.n)
            q = (q[0], q[1], q[2], frozenset())
        return q if q[2] else self.lapse(q)

    def on_use(self, cx, p, val, q):
        if "*" not in p:
            return q
        v = cx.env.get(p[0])
        d = False
        for e in p[1:]:
            if v is None:
                return q
            if e == "*":
                d = True
            elif d and e[0] in ("f", "i", "ci") and v[0] != "agg" and self.loads(v):
                self.seen["dereferences"].add((cx.f.id, cx.bb))
                if self.stale(v, q):
                    self.E.report(cx, "stale:%s" % self.who(cx), "%s follows a reference into a bucket array that was loaded before a "
                                  "suspension and not validated since" % self.who(cx))
            v = self.E.proj(v, e)
        return q

    def who(self, cx):
        for f in (cx.f,) + tuple(reversed(cx.stack)):
            if f.n.startswith("hash_") and "bucket" not in f.n.split("::")[1]:
                return re.sub(r"(::\{closure#\d+\})+$", "", f.n)
        return cx.f.n


def check(c):
    c.rule = ("per path of every asynchronous hash-table operation: at a suspension no AsyncGuard holds an epoch guard, and an array "
              "loaded before it is dereferenced afterwards only if a bucket lock has pinned it all along or it was re-validated (lock "
              "acquired on one of its buckets, or compared equal with a fresh load)")
    F = facts.load()
    A = flow.fields_of_type(F, CONT, ARR) | flow.fields_of_type(F, r"BucketArray$", ARR)
    sites = {(f.id, i) for f, i, n in flow.sites_on(F, A, r"^sdd::AtomicShared::load$")}
    # A generic accessor loads through a parameter.
    for f in F.fns.values():
        if any(re.match(r"^&sdd::AtomicShared<.*BucketArray<", F.ts(f.locals[k + 1][0])) for k in range(f.argc)):
            sites |= {(f.id, i) for i, x in f.calls() if cname(x) == "sdd::AtomicShared::load"}
    claims = {(f.id, i) for f, i, n in flow.sites_on(F, flow.fields_of_type(F, r"BucketArray$", r"Atomic<usize>$"), r"atomic::Atomic::")}
    r = Refs(F, sites, claims)
    E = Engine(F, r, max_states=8000000)
    n = roots = 0
    for f in F.roots():
        if f.id not in E.interesting or not any(F.fns[g].cor for g in [f.id] + list(locks_creates(f)) if g in F.fns):
            continue
        roots += 1
        n += len(E.run_root(f.id, (0, frozenset(), frozenset(), frozenset())))
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    c.count(n + len(r.seen["dereferences"]))
    c.floor("asynchronous operations interpreted", roots, 40)
    for k, least in (("loads", 6), ("suspensions", 4), ("guard resets", 1), ("dereferences", 40), ("locks awaited", 4)):
        c.floor(k, len(r.seen[k]), least)
    c.analysed["abstract states"] = E.nstates


from rules.locks import creates as locks_creates  # noqa: E402
