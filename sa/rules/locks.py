"""Lock tokens: every acquired lock ends up in a guard or is released; guards are leaked only under cover of an unlocker."""
import re

from engine import Rule
from facts import cname, op_place

ACQ_EXCL = re.compile(r"^saa::(\w+::)?Lock::(try_lock|lock_sync|lock_async|lock_async_with|lock_sync_with)$")
ACQ_SHARE = re.compile(r"^saa::(\w+::)?Lock::(try_share|share_sync|share_async|share_async_with|share_sync_with)$")
REL_EXCL = re.compile(r"^saa::(\w+::)?Lock::release_lock$")
REL_SHARE = re.compile(r"^saa::(\w+::)?Lock::release_share$")
POISON = re.compile(r"^saa::(\w+::)?Lock::poison_lock$")
ANY = re.compile("|".join(r.pattern for r in (ACQ_EXCL, ACQ_SHARE, REL_EXCL, REL_SHARE, POISON)))
FORGET = re.compile(r"^std::mem::forget$|^std::mem::ManuallyDrop::new$|^std::boxed::Box::(leak|into_raw)$"
                    r"|^std::mem::MaybeUninit::new$")
DROPFN = re.compile(r"^<(.+) as std::ops::Drop>::drop$")


def direct(F, f, rx):
    return [(i, cname(c)) for i, c in f.calls() if rx.search(cname(c))]


def guard_types(F):
    """ADT name -> set of 'excl' | 'share': the types whose destructor releases a lock (itself or through plain helpers)."""
    out = {}
    for f in F.fns.values():
        m = DROPFN.match(f.n)
        if not m:
            continue
        # A destructor that runs a stored closure is not a guard type of one lock.
        if any(c["n"].startswith(("std::ops::FnOnce::", "std::ops::FnMut::", "std::ops::Fn::")) for i, c in f.calls()):
            continue
        seen, st = {f.id}, [f.id]
        while st:
            g = F.fns[st.pop()]
            for i, n in direct(F, g, ANY):
                if REL_EXCL.match(n):
                    out.setdefault(m.group(1), set()).add("excl")
                elif REL_SHARE.match(n):
                    out.setdefault(m.group(1), set()).add("share")
            for i, c in g.calls():
                x = c.get("id", -1)
                if x in F.fns and x not in seen and not DROPFN.match(F.fns[x].n):
                    seen.add(x)
                    st.append(x)
    return out


def guard_name(t, guards):
    """The guard type a printed type is (by its ADT path), if it is one."""
    return guards.get(re.sub(r"<.*", "", t).lstrip("&"))


def acq_mode(n):
    return "excl" if ACQ_EXCL.match(n) else "share" if ACQ_SHARE.match(n) else None


def rel_mode(n):
    return "excl" if REL_EXCL.match(n) else "share" if REL_SHARE.match(n) else None


class Tokens(Rule):
    """q = (raw, leaked, poisoned): raw = modes of locks taken and not yet owned by a guard; leaked: 0 none, 1 guards were
    leaked and not recovered, 2 being recovered; poisoned: 1 a lock was poisoned and its guard still exists."""
    tracked = re.compile(r"^saa::")

    def __init__(self, F, guards):
        super().__init__(F)
        self.guards = guards
        self.counts = {"acquired": set(), "guards built": set(), "released": set(), "leaked": set(), "poisoned": set(),
                       "recovered": set()}
        self.adopters = None
        self.idle = set()
        self.busy = set()

    def events(self):
        F = self.F
        ev = set()
        for f in F.fns.values():
            if direct(F, f, ANY):
                ev.add(f.id)
            elif self.forgets(f) or self.builds(f):
                ev.add(f.id)
        self.adopt_ids = {f.id for f in F.fns.values() if self.builds(f) and not self.acquires(f)}
        # Functions that re-create guards (possibly through plain helpers), for the loops that recover leaked ones.
        self.adopters = set(self.adopt_ids)
        ch = True
        while ch:
            ch = False
            for f in F.fns.values():
                if f.id not in self.adopters and not f.cor and not self.acquires(f) and \
                        any(c.get("id", -1) in self.adopters for i, c in f.calls()) and len(f.bb) < 40:
                    self.adopters.add(f.id)
                    ch = True
        return ev

    def acquires(self, f):
        return any(acq_mode(n) for i, n in direct(self.F, f, ANY))

    def builds(self, f):
        return any(s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") in self.guards
                   for b in f.bb for s in b["s"])

    def forgets(self, f):
        for i, c in f.calls():
            if FORGET.match(cname(c)) and any(guard_name(self.F.ts(g), self.guards) for g in c.get("ga", [])):
                return True
        return False

    # ------------------------------------------------------------- events
    def on_call(self, cx, c, args, q):
        n = cname(c)
        raw, leaked, poisoned = q
        m = acq_mode(n)
        if m is not None:
            self.counts["acquired"].add(cx.site)
            if leaked == 2:
                leaked = 0
            if leaked == 3:
                self.E.report(cx, "unlocked:%s" % cx.f.n, "a guard is made on the way to %s although the lock is not held" % cx.f.n)
                leaked = 0
            if "_async" in n:
                return [("ret", (raw, leaked, poisoned), ("call", n, (), cx.site))]
            if len(raw) >= 3:
                self.E.report(cx, "pile:%s" % cx.f.n, "locks taken in %s pile up without an owner" % cx.f.n)
                return []
            return [("ret", (raw + (m,), leaked, poisoned), ("i", 1)), ("ret", (raw, leaked, poisoned), ("i", 0))]
        m = rel_mode(n)
        if m is not None:
            self.counts["released"].add(cx.site)
            if m in raw:
                raw = list(raw)
                raw.remove(m)
                return [("ret", (tuple(raw), leaked, poisoned), ("i", 1))]
            g = self.in_drop(cx)
            if g is None:
                self.E.report(cx, "release:%s" % cx.f.n, "%s releases a lock that it has not taken and that is not its own guard's"
                              % cx.f.n)
            elif self.guards[g] != {m}:
                self.E.report(cx, "mode:%s" % g, "%s is released in the wrong mode (%s)" % (g, m))
            elif poisoned and m == "excl":
                self.E.report(cx, "poisoned:%s" % self.outer(cx), "a lock is released after it was poisoned, in %s" % self.outer(cx))
            return [("ret", q, ("i", 1))]
        if POISON.match(n):
            self.counts["poisoned"].add(cx.site)
            if poisoned:
                self.E.report(cx, "poison2:%s" % cx.f.n, "a second lock is poisoned while the guard of the first is still alive, "
                              "in %s" % self.outer(cx))
            return [("ret", (raw, leaked, 1), ("i", 1))]
        if FORGET.match(n) and any(guard_name(self.F.ts(g), self.guards) for g in c.get("ga", [])):
            self.counts["leaked"].add(cx.site)
            if poisoned:
                return [("ret", (raw, leaked, 0), None)]
            if any("share" in guard_name(self.F.ts(g), self.guards) or () for g in c.get("ga", [])
                   if guard_name(self.F.ts(g), self.guards)):
                self.E.report(cx, "leakshare:%s" % cx.f.n, "%s leaks a shared lock" % cx.f.n)
            return [("ret", (raw, 1, poisoned), None)]
        return None

    def in_drop(self, cx):
        for f in (cx.f,) + tuple(reversed(cx.stack)):
            m = DROPFN.match(f.n)
            if m:
                return m.group(1) if m.group(1) in self.guards else None
        return None

    def outer(self, cx):
        fs = [f for f in cx.stack if f.n.startswith("hash_table::HashTable::") or not DROPFN.match(f.n)]
        return fs[-1].n if fs else cx.f.n

    def poll_extern(self, cx, fut, q):
        if fut is not None and fut[0] == "call":
            m = acq_mode(fut[1])
            if m is not None:
                raw, leaked, poisoned = q
                return [((raw + (m,), leaked, poisoned), ("i", 1)), (q, ("i", 0))], [q]
        return super().poll_extern(cx, fut, q)

    def on_agg(self, cx, adt, variant, vals, q):
        if adt not in self.guards:
            return q
        raw, leaked, poisoned = q
        self.counts["guards built"].add(cx.site)
        m = next(iter(self.guards[adt])) if len(self.guards[adt]) == 1 else "excl"
        if m in raw:
            raw = list(raw)
            raw.remove(m)
            return (tuple(raw), leaked, poisoned)
        if raw:
            self.E.report(cx, "kind:%s:%s" % (adt, cx.f.n), "a %s is made in %s from a lock taken in the other mode" % (adt, self.outer(cx)))
            return (raw[1:], leaked, poisoned)
        if leaked in (1, 2) and m == "excl":
            self.counts["recovered"].add(cx.site)
            return (raw, 2, poisoned)
        # A loop that recovers what was leaked may find nothing to recover (see on_exit).
        return (raw, 3, poisoned) if not leaked else q

    def on_exit(self, cx, kind, q):
        raw, leaked, poisoned = q
        f = cx.f
        if leaked == 2 and any(self.recovers(f, body) for h, body in self.E.loopinfo(f)):
            self.busy.add(f.n)
        if leaked == 3:
            if any(self.recovers(f, body) for h, body in self.E.loopinfo(f)) and not self.acquires(f):
                self.idle.add(f.n)
                return (raw, 0, poisoned)
            if self.acquires(f) or not cx.stack:
                self.E.report(cx, "unlocked:%s" % f.n, "a guard is made in %s although the lock is not held" % f.n)
                return (raw, 0, poisoned)
        return q

    def on_loop_exit(self, cx, header, q):
        raw, leaked, poisoned = q
        if leaked:
            for h, body in self.E.loopinfo(cx.f):
                if h == header and self.recovers(cx.f, body):
                    (self.idle if leaked == 3 else self.busy).add(cx.f.n)
                    return (raw, 0, poisoned)
        return q

    def recovers(self, f, body):
        for i in body:
            t = f.bb[i]["t"]
            if "call" in t and t["call"].get("fn", {}).get("id", -1) in self.adopters:
                return True
            for s in f.bb[i]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") in self.guards and not self.acquires(f):
                    return True
        return False

    def closure_once(self, cx, a):
        """An iterator adaptor that re-creates the leaked guards runs over all of them."""
        return isinstance(a[1], tuple) and a[1][1] in self.F.fns and self.closure_recovers(a[1][1])

    def closure_done(self, cx, a, q):
        raw, leaked, poisoned = q
        if leaked:
            (self.idle if leaked == 3 else self.busy).add(cx.f.n)
            return (raw, 0, poisoned)
        return q

    def closure_recovers(self, fid):
        f = self.F.fns[fid]
        return not self.acquires(f) and any(c.get("id", -1) in self.adopters for i, c in f.calls())


def span(v):
    """How a bucket was chosen: ('range', start, end), ('incl', start, end) or ('idx', value)."""
    if isinstance(v, tuple) and v[0] == "fld" and isinstance(v[2], tuple) and v[2][0] == "dc":
        c = v[2][2]
        if isinstance(c, tuple) and c[0] == "call" and c[1].endswith("Iterator>::next") and c[2]:
            r = c[2][0]
            if r is not None and r[0] == "agg" and r[1] == "std::ops::Range":
                return ("range", r[3][0], r[3][1])
            if r is not None and r[0] == "call" and "RangeInclusive" in r[1]:
                return ("incl",) + tuple(r[2][:2])
    return ("idx", v)


class Ranges(Tokens):
    """q = (locks just taken, what was leaked, what was last locked): the buckets recovered are the ones leaked.  what = (span, index, all of it)."""
    tracked = None

    def __init__(self, F, guards):
        super().__init__(F, guards)
        self.compared = set()
        self.undecided = set()

    def on_call(self, cx, c, args, q):
        n = cname(c)
        raw, what, last = q
        if acq_mode(n):
            if "_async" in n:
                return [("ret", q, ("call", n, (), cx.site))]
            return [("ret", (1, what, None), ("i", 1)), ("ret", (0, what, None), ("i", 0))]
        if rel_mode(n) or POISON.match(n):
            return [("ret", q, ("i", 1))]
        if FORGET.match(n) and any(guard_name(self.F.ts(g), self.guards) for g in c.get("ga", [])):
            i = last
            if i is None:
                self.undecided.add(cx.f.n)
                return [("ret", (raw, "?", None), None)]
            new = (span(i), i, False)
            if what is not None and what != new:
                self.undecided.add(cx.f.n)
                new = "?"
            return [("ret", (raw, new, None), None)]
        return None

    def poll_extern(self, cx, fut, q):
        if fut is not None and fut[0] == "call" and acq_mode(fut[1]):
            return [((1, q[1], None), ("i", 1)), ((0, q[1], None), ("i", 0))], [q]
        return Rule.poll_extern(self, cx, fut, q)

    def on_branch(self, cx, val, fact, q):
        raw, what, last = q
        if isinstance(what, tuple) and what[0][0] == "range" and val is not None and val[0] == "disc" and fact == ("=", 0):
            if span(("fld", 0, ("dc", 1, val[1]))) == what[0]:
                return (raw, (what[0], what[1], True), last)
        return q

    def on_agg(self, cx, adt, variant, vals, q):
        if adt not in self.guards:
            return q
        raw, what, last = q
        v = vals[0] if vals else None
        i = v[2][1] if v is not None and v[0] == "call" and len(v[2]) == 2 else None
        if raw:
            return (0, what, i)
        if not isinstance(what, tuple):
            return q
        sp = span(i)
        if i is None or None in sp[1:] or None in what[0][1:] or sp[0] == "idx":
            self.undecided.add(cx.f.n)
            return q
        self.compared.add(self.user(cx))
        (kind, *se), idx, done = what
        ok = sp[0] == "range" and (sp[1] == se[0] and (sp[2] == se[1] if done else sp[2] == idx) if kind == "range"
                                   else sp[1] == se[0] if kind == "idx" else False)
        if not ok:
            self.E.report(cx, "range:%s" % self.user(cx), "%s recovers another range of locks than it leaked" % self.user(cx))
        return q

    def user(self, cx):
        for f in (cx.f,) + tuple(reversed(cx.stack)):
            if any(self.recovers(f, body) for h, body in self.E.loopinfo(f)):
                return f.n
        return cx.f.n

    def on_exit(self, cx, kind, q):
        return q

    def on_loop_exit(self, cx, header, q):
        return q

    def closure_done(self, cx, a, q):
        return q


def counters(F, f, guards, report):
    """Where a counter in an exit guard says how many locks were leaked: it is bumped with every leak, before anything can
    end the operation.  Returns the number of leaks followed this way."""
    def is_counter(p):
        if len(p) < 2 or p[1] != "*":
            return False
        t = F.types[f.locals[p[0]][0]]
        while t["k"] in ("ref", "ptr"):
            t = F.types[t["a"][0]]
        return t["k"] == "tuple" and isinstance(p[-1], list) and p[-1][0] == "f"
    def ev(b):
        """Net effect of a block: increments - leaks, and whether it is a point where the operation may end."""
        d = 0
        for s in b["s"]:
            if s[0] == "=" and is_counter(s[1]) and s[2][0] == "bin" and s[2][1].startswith("Add") and s[2][3].get("v") == "1":
                d += 1
            elif s[0] == "=" and is_counter(s[1]) and s[2][0] == "use" and op_place(s[2][1]):
                k = origin(op_place(s[2][1]))
                if k == "more":
                    d += 1
                elif k == "same":
                    report("counter value:%s" % f.n, "%s counts a leaked lock with a value that is not one more" % f.n, b["sp"])
                elif k is None and F.ts(f.locals[op_place(s[2][1])[0]][0]) == "usize":
                    unknown.append(1)
        t = b["t"]
        stop = "y" in t or t.get("r") in ("ret", "cordrop", "unwind")
        if "call" in t and "fn" in t["call"]:
            c = t["call"]["fn"]
            if FORGET.match(cname(c)) and any(guard_name(F.ts(g), guards) for g in c.get("ga", [])):
                return d, -1, False
            if c.get("id", -1) in acquirers:
                stop = True
        return d, 0, stop
    unknown, defs = [], {}
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(s[2])

    def origin(p, n=0):
        if len(p) > 1:
            return "same" if any(isinstance(e, list) and e[0] == "d" for e in p) else None
        if p[0] <= f.argc:
            return "same"
        d = defs.get(p[0], [])
        if len(d) != 1 or n > 8:
            return None
        if d[0][0] == "bin" and d[0][1].startswith("Add") and d[0][3].get("v") == "1":
            return "more"
        if d[0][0] in ("use", "cast"):
            q = op_place(d[0][1] if d[0][0] == "use" else d[0][2])
            return origin(q, n + 1) if q else None
        return None
    acq = {g.id for g in F.fns.values() if any(acq_mode(n) for i, n in direct(F, g, ANY))}
    acquirers = F.callers_closure(acq)
    effects = [ev(b) for b in f.bb]
    if unknown or not any(e[0] for e in effects) or not any(e[1] for e in effects):
        return 0
    seen, work = {(0, 0)}, [(0, 0)]
    while work:
        i, d = work.pop()
        pre, post, stop = effects[i]
        d += pre
        if stop and d:
            report("counter:%s" % f.n, "%s may end while its count of leaked locks is %s" %
                   (f.n, "too high" if d > 0 else "too low"), f.bb[i]["sp"])
            continue
        d += post
        if abs(d) > 2:
            continue
        for j, k in f.succ(i, unwind=False):
            if (j, d) not in seen:
                seen.add((j, d))
                work.append((j, d))
    return sum(1 for e in effects if e[1])


def base_of(F, f, rule, report):
    """A closure that recovers guards over START..counter starts where the counter did."""
    if not any(rule.recovers(f, body) for h, body in f.loops()):
        return
    src = {}
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use":
                src.setdefault(s[1][0], s[2][1])

    def res(o, n=0):
        p = op_place(o)
        if p is None:
            return ("i", o.get("v"))
        if len(p) == 1 and p[0] > f.argc and p[0] in src and n < 6:
            return res(src[p[0]], n + 1)
        if p[0] == 2 and len(p) >= 2 and isinstance(p[-1], list) and p[-1][0] == "f":
            return ("f", p[-1][1])
        return None
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") == "std::ops::Range":
                st, en = res(s[2][2][0]), res(s[2][2][1])
                if st and en and st[0] == "i" and en[0] == "f":
                    for v in (v for g in F.fns.values() if f.id in creates(g) for v in initial(F, g, f.id, en[1])):
                        if v != st[1]:
                            report("base:%s" % f.n, "%s recovers locks from %s on, the count starts at %s" % (f.n, st[1], v), b["sp"])


def creates(g):
    """Ids of the closures and coroutines a function creates."""
    r = getattr(g.F, "_creates", None)
    if r is None:
        r = {h.id: {s[2][1]["id"] for b in h.bb for s in b["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("id", -1) >= 0
                    and not s[2][1].get("adt")} for h in g.F.fns.values()}
        g.F._creates = r
    return r[g.id]


def initial(F, g, closure, k):
    """The constants field k of the tuple has that is lent to an exit guard with this closure."""
    tup, clo = {}, {}
    for b in g.bb:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and len(s[1]) == 1:
                if s[2][1].get("id") == closure:
                    clo[s[1][0]] = True
                elif not s[2][1].get("adt") and k < len(s[2][2]):
                    tup[s[1][0]] = s[2][2][k]
    for i, c in g.calls():
        a = [op_place(x) for x in g.bb[i]["t"]["a"]]
        if len(a) == 2 and a[1] and a[1][0] in clo and a[0] and a[0][0] in tup:
            o = tup[a[0][0]]
            if "k" in o and o.get("v") is not None:
                yield o["v"]


class Releases(Rule):
    """q = how often the guard's lock was released."""
    tracked = re.compile(r"^$")

    def events(self):
        return [f.id for f in self.F.fns.values() if direct(self.F, f, ANY)]

    def on_call(self, cx, c, args, q):
        if rel_mode(cname(c)):
            return [("ret", min(q + 1, 3), None)]
        return None


EXITS = {"ret": "returns", "unwind": "unwinds", "cordrop": "is dropped while suspended"}


def exits(c, f, out):
    """Reports the lock tokens that leave a root."""
    n = 0
    for kind, q, v in out:
        n += 1
        raw, leaked, poisoned = q
        if raw:
            c.fail("held:%s" % f.n, "%s %s with a lock held that no guard owns" % (f.n, EXITS[kind]), f.n)
        if leaked == 1:
            c.fail("leak:%s" % f.n, "%s %s with a leaked lock that nobody will release" % (f.n, EXITS[kind]), f.n)
        if poisoned:
            c.fail("poison:%s" % f.n, "%s %s with a poisoned lock whose guard will release it again" % (f.n, EXITS[kind]), f.n)
    return n
