"""Reserved capacity: what is added is what the reservation holds and gives back, and resizes respect it."""
import re

import facts
import flow
from engine import Engine, Rule
from facts import cname, op_place
from rules import c12
from rules.c12 import ARR, CONT, TOP
from rules.locks import EXITS

CONST = ("const",)
ATLEAST = ("fld", "@atleast", None)
SLOTS = ("fld", "@slots", None)
RESERVE = r"::Reserve$"


def is_raw(v):
    """The capacity word itself, or what is left of it once the marker is masked out."""
    if v is None:
        return False
    if v[0] == "call" and v[2] and v[2][0] == ("fld", "@min", None):
        return True
    return v[0] == "bin" and v[1] == "BitAnd" and (is_raw(v[2]) or is_raw(v[3]))


def drops_marker(op, a, b):
    """What a computation that takes the marker off the word leaves (whether it may be done there is decided by C12)."""
    if op.replace("Unchecked", "").replace("WithOverflow", "") in ("Sub", "Rem", "BitXor") and is_raw(a) and b == ("i", c12.TOP):
        return a
    return None


def unmask(v):
    while v is not None and v[0] == "bin" and v[1] == "BitAnd":
        v = v[2] if is_raw(v[2]) else v[3]
    return v


def lin(v, k=1, out=None):
    """Linear form: atom -> coefficient."""
    out = {} if out is None else out
    if v is not None and v[0] == "bin" and v[1] in ("Add", "Sub"):
        lin(v[2], k, out)
        lin(v[3], k if v[1] == "Add" else -k, out)
    elif v is not None and v[0] == "i":
        out[CONST] = out.get(CONST, 0) + k * v[1]
    else:
        v = unmask(v) if is_raw(v) else v
        out[v] = out.get(v, 0) + k
    return {a: c for a, c in out.items() if c}


class Account(Rule):
    """q = (amount added and not yet handed over | None, (cur, amount) known to fit | None, times given back)"""

    def __init__(self, F, sites, marks, closures):
        super().__init__(F)
        self.sites, self.marks = sites, marks
        self.closures = closures
        self.seen = {"raised": set(), "held": set(), "lowered": set()}
        self.holders = {f.id for f in F.fns.values() for b in f.bb for s in b["s"]
                        if s[0] == "=" and s[2][0] == "agg" and re.search(RESERVE, s[2][1].get("adt") or "")}

    def events(self):
        return {k[0] for k, n in self.sites.items() if k not in self.marks and not n.endswith("::load")} | self.holders

    def on_bin(self, op, a, b):
        return drops_marker(op, a, b)

    def raised(self, cx, cur, new, q):
        """The amount by which an update raises the word."""
        d = lin(new)
        cur = unmask(cur)
        if d.get(cur) != 1:
            return ("?", None)
        del d[cur]
        if list(d.values()) == [1] and CONST not in d:
            a = next(iter(d))
        else:
            a = ("lin", tuple(sorted(d.items(), key=repr)))
        self.seen["raised"].add(cx.site)
        if q[1] != (cur, a):
            self.E.report(cx, "unbounded:%s" % cx.f.n, "%s raises the minimum capacity without having checked that the sum with "
                          "its current value stays within the maximum capacity" % cx.f.n)
        return a

    def on_call(self, cx, c, args, q):
        n = cname(c)
        if re.search(r"usize::(wrapping|unchecked|saturating|strict)_(add|sub)$", n):
            return [("ret", q, ("bin", "Add" if n.endswith("add") else "Sub", args[0], args[1]))]
        if re.search(r"usize::checked_(add|sub)$", n):
            v = ("bin", "Add" if n.endswith("add") else "Sub", args[0], args[1])
            return [("ret", q, ("agg", "std::option::Option", 1, (v,), 1)), ("ret", q, ("agg", "std::option::Option", 0, (), 0))]
        if cx.site not in self.sites or cx.site in self.marks:
            return None
        op = n.rsplit("::", 1)[1]
        MIN = ("fld", "@min", None)
        if op == "load":
            return [("ret", q, ("call", n, (MIN,), cx.site))]
        if op.startswith("compare_exchange"):
            a = self.raised(cx, args[1], args[2], q)
            if q[0] is not None:
                self.E.report(cx, "twice:%s" % cx.f.n, "%s raises the minimum capacity again before handing over the first raise" % cx.f.n)
            return [("ret", (a, None, q[2]), ("agg", "std::result::Result", 0, (None,), 0)),
                    ("ret", (q[0], None, q[2]), ("agg", "std::result::Result", 1, (("call", n, (MIN,), cx.site),), 1))]
        if op in ("fetch_update", "try_update", "update"):
            cur = ("call", n, (MIN,), cx.site)
            out = []
            for kind, q2, v in self.E.apply(cx, cx.f, args[-1], (cur,), q, cx.stack):
                if kind != "ret":
                    out.append((kind, q2, v))
                elif v is not None and v[0] == "agg" and v[2] == 1 and v[3]:
                    a = self.raised(cx, cur, v[3][0], q2)
                    out.append(("ret", (a, None, q2[2]), ("agg", "std::result::Result", 0, (cur,), 0)))
                else:
                    out.append(("ret", q2, ("agg", "std::result::Result", 1, (cur,), 1)))
            return out
        if op == "fetch_add":
            cur = ("call", n, (MIN,), cx.site)
            return [("ret", (self.raised(cx, cur, ("bin", "Add", cur, args[1]), q), None, q[2]), cur)]
        if op == "fetch_sub":
            self.seen["lowered"].add(cx.site)
            cur = ("call", n, (MIN,), cx.site)
            if q[0] is not None:
                if q[0] != args[1] and q[0] != ("?", None):
                    self.E.report(cx, "rollback:%s" % cx.f.n, "%s takes back another amount than it added to the minimum capacity" % cx.f.n)
                return [("ret", (None, None, q[2]), cur)]
            a = args[1]
            if not (a is not None and a[0] == "fld" and a[2] == ("arg", 0)):
                self.E.report(cx, "lowers:%s" % cx.f.n, "%s lowers the minimum capacity by something else than the amount of the "
                              "reservation being dropped" % cx.f.n)
            return [("ret", (q[0], None, q[2] + 1 if q[2] < 3 else 3), cur)]
        if op in ("store", "swap", "fetch_max", "fetch_min", "fetch_and", "fetch_or", "fetch_xor", "fetch_nand"):
            self.E.report(cx, "overwrites:%s" % cx.f.n, "%s overwrites the minimum capacity while reservations may be included in it" % cx.f.n)
        return None

    def on_branch(self, cx, val, fact, q):
        if val is None:
            return q
        t = fact[1] != 0 if fact[0] == "=" else (True if 0 in fact[1] else None)
        v = val
        if q[0] is not None and fact == ("=", 0) and v == q[0]:
            return (None, None, q[2])
        while v[0] == "not":
            v, t = v[1], None if t is None else not t
        if q[0] is not None and t and v[0] == "eq" and v[2] == 0 and v[1] == q[0]:
            return (None, None, q[2])
        if t is not None and v[0] == "bin" and v[1] in ("Gt", "Ge", "Lt", "Le"):
            op, a, b = v[1:4]
            if op[0] == "L":
                op, a, b = "G" + op[1], b, a
            # now a > b or a >= b; known: (a - b > 0) == t
            d = lin(("bin", "Sub", a, b) if not t else ("bin", "Sub", b, a))
            # known: d <= 0
            raw = [x for x in d if is_raw(x) and d[x] == 1]
            rest = [x for x in d if x != CONST and not is_raw(x)]
            if len(raw) == 1:
                amounts = [x for x in rest if d[x] == 1]
                limits = [x for x in rest if d[x] == -1]
                if len(amounts) == 1 and len(amounts) + len(limits) == len(rest) and len(limits) <= 1 \
                        and (d.get(CONST, 0) <= -1 if not limits else d.get(CONST, 0) <= 0):
                    return (q[0], (raw[0], amounts[0]), q[2])
        return q

    def on_agg(self, cx, adt, variant, vals, q):
        if adt is not None and isinstance(adt, str) and re.search(RESERVE, adt):
            self.seen["held"].add(cx.site)
            if q[0] is None:
                self.E.report(cx, "conjured:%s" % cx.f.n, "%s makes a reservation for capacity that was not added" % cx.f.n)
            elif q[0] not in vals and q[0] != ("?", None):
                self.E.report(cx, "amount:%s" % cx.f.n, "%s makes a reservation that holds another amount than was added to the "
                              "minimum capacity" % cx.f.n)
            return (None, None, q[2])
        return q


class Size(Rule):
    """q = (the array allocated last has room for the minimum capacity, the minimum capacity is known to be 0, marker set)"""
    tracked = re.compile(r"atomic::Atomic::load$")

    def __init__(self, F, mins, marks, arrays, news):
        super().__init__(F)
        self.mins, self.marks, self.arrays, self.news = mins, marks, arrays, news
        self.slots = {f.id for f in F.fns.values() if re.search(r"BucketArray::num_slots$", f.n)}
        self.seen = {"installed": set(), "removed": set()}

    def events(self):
        return {k[0] for k in self.arrays} | self.slots

    def atleast(self, v):
        return v == ATLEAST or is_raw(v) or v is not None and v[0] == "bin" and v[1] in ("Add", "Mul", "Max") and \
            (self.atleast(v[2]) or self.atleast(v[3]))

    def on_bin(self, op, a, b):
        r = drops_marker(op, a, b)
        if r is not None:
            return r
        if op in ("Mul", "MulUnchecked", "Add") and (self.atleast(a) or self.atleast(b)):
            return ATLEAST
        if op in ("Shl",) and self.atleast(a):
            return ATLEAST
        return None

    def on_call(self, cx, c, args, q):
        n = cname(c)
        if c.get("id", -1) in self.slots:
            return [("ret", q, SLOTS)]
        if n.endswith("::max") and len(args) == 2:
            g = [a for a in args if self.atleast(a)]
            return [("ret", q, ATLEAST if g else None)]
        if re.search(r"usize::(next_power_of_two|(wrapping|saturating|unchecked)_(add|mul|shl))$", n):
            return [("ret", q, ATLEAST if self.atleast(args[0]) or len(args) > 1 and not n.endswith("shl") and self.atleast(args[1]) else None)]
        if cx.site in self.mins and n.endswith("::load"):
            return [("ret", q, ("call", n, (("fld", "@min", None),), cx.site))]
        if c.get("id", -1) in self.news and args:
            return [("ret", (int(self.atleast(args[0])),) + q[1:], None), ("unwind", q, None)]
        if cx.site in self.arrays and not self.owned(cx):
            op = n.rsplit("::", 1)[1]
            if op in ("swap", "compare_exchange", "compare_exchange_weak"):
                v = args[1] if op == "swap" else args[2]
                p = v[3][0] if v is not None and v[0] == "agg" and v[1] == "tuple" else None
                if p is not None and p[0] == "agg" and p[2] == 0:
                    self.seen["removed"].add(cx.site)
                    if not q[1]:
                        self.E.report(cx, "removes:%s" % self.who(cx), "%s takes the bucket array out without having seen that no capacity "
                                      "is reserved" % self.who(cx))
                else:
                    self.seen["installed"].add(cx.site)
                    if not q[0]:
                        self.E.report(cx, "small:%s" % self.who(cx), "%s installs a bucket array whose size does not take the minimum "
                                      "capacity into account" % self.who(cx))
        return None

    owned = c12.Marker.owned
    who = c12.Marker.who

    def on_branch(self, cx, val, fact, q):
        if val is None:
            return q
        t = fact[1] != 0 if fact[0] == "=" else (True if 0 in fact[1] else None)
        v = val
        if fact == ("=", 0) and is_raw(v):
            return (q[0], 1, q[2])
        while v[0] == "not":
            v, t = v[1], None if t is None else not t
        if t and v[0] == "eq" and v[2] == 0 and is_raw(v[1]):
            return (q[0], 1, q[2])
        if v[0] == "bin" and v[1] in ("Eq", "Ne") and v[2] == v[3] == SLOTS and t is not None and t != (v[1] == "Eq"):
            return None
        return q


def check(c):
    c.rule = ("on every path, the amount a compare-and-swap adds to the minimum capacity was checked against the maximum with the same "
              "current value, and is the amount the reservation is built with (or is taken back); dropping a reservation subtracts "
              "exactly its amount once; arrays are installed with room for the minimum capacity, and removed only when it is 0")
    F = facts.load()
    M = flow.fields_of_type(F, CONT, r"Atomic<usize>$")
    A = flow.fields_of_type(F, CONT, ARR)
    acc = set().union(set(), *flow.accessors(F).values())
    A = (A & acc) or A
    ms = flow.sites_on(F, M, r"atomic::Atomic::")
    T = c12.Taint(c, F, ms)
    marks = {(f.id, i): c12.sets_marker(F, f, i, n, T.closure_of) for f, i, n in ms}
    marks = {k for k, v in marks.items() if v}
    r = Account(F, {(f.id, i): n for f, i, n in ms}, marks, T.closure_of)
    E = Engine(F, r, max_states=4000000)
    n = 0
    drops = 0
    for f in F.roots():
        isdrop = re.search(r"::Reserve as std::ops::Drop>::drop$", f.n)
        if f.id not in E.interesting:
            if isdrop:
                c.fail("keeps:%s" % f.n, "%s does not give the reserved capacity back" % f.n, f.n)
            continue
        for kind, q, v in E.run_root(f.id, (None, None, 0)):
            n += 1
            if q[0] is not None:
                c.fail("leaked:%s" % f.n, "%s %s with capacity added that no reservation gives back" % (f.n, EXITS[kind]), f.n)
            if isdrop:
                drops += 1
                if q[2] != 1:
                    c.fail("given:%s" % f.n, "%s %s having given the reserved capacity back %d times" % (f.n, EXITS[kind], q[2]), f.n)
            elif q[2]:
                c.fail("lowered:%s" % f.n, "%s %s having lowered the minimum capacity" % (f.n, EXITS[kind]), f.n)
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    for k, least in (("raised", 3), ("held", 2), ("lowered", 3)):
        c.floor("minimum capacity " + k, len(r.seen[k]), least)
    c.floor("reservation destructors' exits", drops, 2)
    # The amount a reservation holds never changes, and is what it reports.
    for f in F.fns.values():
        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[1][-1], list) and s[1][-1][0] == "f" and len(s[1][-1]) > 3 and re.search(RESERVE, s[1][-1][3]):
                    c.fail("changes:%s" % f.n, "%s changes a reservation" % f.n, b["sp"])
                if s[0] == "=" and s[2][0] == "ref" and "mut" in str(s[2][1]).lower() and isinstance(s[2][2][-1], list) and \
                        len(s[2][2][-1]) > 3 and re.search(RESERVE, s[2][2][-1][3]):
                    c.fail("borrows:%s" % f.n, "%s borrows a reservation's contents mutably" % f.n, b["sp"])
    c.count(n)
    c.analysed["abstract states"] = E.nstates
    news = {f.id for f in F.fns.values() if re.search(r"BucketArray<.*>$", F.ts(f.locals[0][0])) and not F.ts(f.locals[0][0]).startswith("&")
            and f.argc and F.ts(f.locals[1][0]) == "usize"}
    arr = {(f.id, i) for f, i, n in flow.sites_on(F, A, r"^sdd::AtomicShared::")}
    r = Size(F, {(f.id, i) for f, i, n in ms}, marks, arr, news)
    E = Engine(F, r, max_states=4000000)
    for f in F.roots():
        if f.id in E.interesting:
            c.count(len(E.run_root(f.id, (0, 0, 0))))
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    for k, least in (("installed", 8), ("removed", 4)):
        c.floor("bucket arrays " + k, len(r.seen[k]), least)
    c.analysed["abstract states (sizes)"] = E.nstates
