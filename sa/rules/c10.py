"""A key has one entry: entries are added under the lock under which the bucket of the key's hash was searched in vain."""
import re

import facts
import flow
from engine import MAXDEPTH, Engine, Rule, contains
from facts import cname
from rules.c27 import PAIR, SLOT
from rules.locks import POISON, acq_mode, guard_types, rel_mode

EP = re.compile(r"^hash_table::bucket::EntryPtr<")


class Keyed(Rule):
    """q = (state, key, hash): None, 'miss' (searched in vain, lock held since), 'hit', 'two' (a newer version was added next to
    the entry found), 'gone' (the entry found was marked removed)."""
    tracked = re.compile(r"^$")

    def __init__(self, F, removed):
        super().__init__(F)
        self.removed = removed
        reach = F.callers_closure({f.id for f in F.fns.values() if any(cname(c).endswith("Equivalent::equivalent") for i, c in f.calls())})
        self.search, self.insert = {}, {}
        for f in F.fns.values():
            ts = [F.ts(f.locals[k + 1][0]) for k in range(f.argc)]
            if not EP.match(F.ts(f.locals[0][0])):
                continue
            h = [k for k, t in enumerate(ts) if t == "u64"]
            if f.id in reach and h:
                ks = [k for k, t in enumerate(ts) if re.match(r"^&[A-Z]\w*$", t)]
                if ks:
                    self.search[f.id] = (ks[0], h[0])
            ps = [k for k, t in enumerate(ts) if PAIR.match(t)]
            if h and ps:
                self.insert[f.id] = (ps[0], h[0])
        self.seen = {"searches": set(), "insertions": set(), "vacant entries": set(), "hashes compared": set(), "keys compared": set(),
                     "buckets compared": set(), "data blocks compared": set(), "versions replaced": set()}
        adds = F.callers_closure(set(self.insert))
        self.movers = {f.id for f in F.fns.values() if f.id in adds and not f.cor and
                       sum(1 for k in range(f.argc) if re.search(r"bucket::(Writer|Bucket)<", F.ts(f.locals[k + 1][0]))) >= 2}
        self.index = {}
        self.vacant, self.occupied = kinds(F)

    def events(self):
        ev = set(self.search) | set(self.insert) | {k[0] for k in self.removed}
        for f in self.F.fns.values():
            for i, c in f.calls():
                n = cname(c)
                if acq_mode(n) or rel_mode(n) or POISON.match(n) or n.endswith("::hash_one"):
                    ev.add(f.id)
            if any(s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") in self.vacant for b in f.bb for s in b["s"]):
                ev.add(f.id)
        return ev

    def on_call(self, cx, c, args, q):
        n = cname(c)
        if acq_mode(n):
            if "_async" in n:
                return [("ret", (None, None, None), ("call", n, (), (0, 0)))]
            return [("ret", self.unlock(cx, q), ("i", 1)), ("ret", self.unlock(cx, q), ("i", 0))]
        if rel_mode(n) or POISON.match(n):
            return [("ret", self.unlock(cx, q), ("i", 1))]
        if n.endswith("::hash_one"):
            return [("ret", q, ("call", "hash", (args[1],), (0, 0))), ("unwind", q, None)]
        if re.search(r"^(std::ptr::NonNull|\*(const|mut) T)::(wrapping_|byte_)?(add|offset)$", n):
            return [("ret", q, ("call", "at", (args[1],), (0, 0)) if args[1] is not None else None)]
        if n in ("usize::checked_shr", "u64::wrapping_shr", "u64::checked_shr"):
            return [("ret", q, args[0])]
        if re.match(r"^(u64|usize|u128|u32)::\w+$", n) and args and any(x is not None and x[0] == "call" and x[1] in ("hash", "ix") for x in args):
            return [("ret", q, ("call", "ix", (args[0], ((n, args[1][1] if len(args) > 1 and args[1] is not None and args[1][0] == "i" else 0),)), (0, 0)))]
        i = c.get("id", -1)
        if i in self.search:
            k, h = self.search[i]
            self.seen["searches"].add(cx.site)
            key, hs = args[k], args[h]
            if hs is not None and hs[:2] == ("call", "hash"):
                self.seen["hashes compared"].add(cx.site)
                if hs[2][0] is not None and key is not None and hs[2][0] != key:
                    self.E.report(cx, "search hash:%s" % cx.f.n, "%s searches for a key with the hash of another" % cx.f.n)
            b = (ats(args[:1]) + [None])[0]
            if b is not None and hs is not None:
                self.seen["buckets compared"].add(cx.site)
                if len(ats(args)) > 1:
                    self.seen["data blocks compared"].add(cx.site)
                    if len(set(ats(args))) > 1:
                        self.E.report(cx, "block:%s" % cx.f.n, "%s searches a bucket with the data block of another one" % cx.f.n)
                if not contains(b, hs):
                    self.E.report(cx, "bucket:%s" % cx.f.n, "%s searches a bucket that was not selected by the key's hash" % cx.f.n)
                self.index.setdefault(norm(b, hs), set()).add(self.who(cx))
            return [("ret", q, ("call", "search", (key, hs), (0, 0))), ("unwind", q, None)]
        if i in self.movers:
            # Moves an entry from another bucket (what it moves is C14's subject).
            return [("ret", q, None)]
        if i in self.insert:
            p, h = self.insert[i]
            st, key, hs = q
            if st in ("miss", "hit", "two") and hs is not None and args[h] is not None:
                self.seen["hashes compared"].add(cx.site)
                if hs != args[h]:
                    self.E.report(cx, "insert hash:%s" % cx.f.n, "%s adds an entry with another hash than the one it was searched with" % cx.f.n)
            return None
        if SLOT.match(n) and c.get("ga") and PAIR.match(self.F.ts(c["ga"][0])) and (n.endswith("::write") or n.endswith("::replace")):
            return self.added(cx, args, q)
        if cx.site in self.removed:
            v = args[1] if len(args) > 1 else None
            if n.endswith(("fetch_or",)) or v is not None and v[:2] == ("call", "or"):
                st, key, hs = q
                if st == "two":
                    self.seen["versions replaced"].add(cx.site)
                return [("ret", ({"two": None, "hit": "gone"}.get(st, st), key, hs), None)]
            return None
        return None

    def on_bin(self, op, a, b):
        if op == "BitOr":
            return ("call", "or", (), (0, 0))
        if op in ("Shr", "BitAnd", "Div", "Rem", "Mul", "ShrUnchecked"):
            # A bucket index computed from a hash.
            for x in (a, b):
                if x is not None and (x[:2] == ("call", "hash") or x[0] == "fld" or x[:2] == ("call", "ix")):
                    y = b if x is a else a
                    n = y[1] if y is not None and y[0] == "i" else 0
                    if x[:2] == ("call", "ix"):
                        return ("call", "ix", (x[2][0], x[2][1] + ((op, n),) if n else x[2][1]), (0, 0))
                    return ("call", "ix", (x, ((op, n),) if n else ()), (0, 0))
        return None

    def unlock(self, cx, q):
        if q[0] == "two":
            self.E.report(cx, "two:%s" % cx.f.n, "the lock is released while both versions of an entry are reachable")
        return (None, None, None)

    def added(self, cx, args, q):
        st, key, hs = q
        v = args[1]
        if v is not None and v[0] == "call" and v[1] == "slot":
            return None
        self.seen["insertions"].add(cx.site)
        who = self.who(cx)
        if st == "hit":
            return [("ret", ("two", key, hs), None)]
        if st != "miss":
            self.E.report(cx, "insert:%s" % who, "%s adds an entry %s" % (who, "after the old version was removed: readers miss the key in between"
                          if st == "gone" else "next to the old and the new version of it" if st == "two" else
                          "without having searched the bucket for its key under the same lock"))
            return [("ret", (None, None, None), None)]
        k = v[3][0] if v is not None and v[0] == "agg" and v[3] else None
        if k is not None and key is not None:
            self.seen["keys compared"].add(cx.site)
            if k != key:
                self.E.report(cx, "insert key:%s" % who, "%s adds an entry of another key than the one it searched for" % who)
        return [("ret", (None, None, None), None)]

    def who(self, cx):
        for f in (cx.f,) + tuple(reversed(cx.stack)):
            if not f.n.startswith("hash_table::") and not f.n.startswith("<"):
                return re.sub(r"(::\{closure#\d+\})+$", "", f.n)
        return cx.f.n

    def on_branch(self, cx, val, fact, q):
        if val[0] == "fld" and isinstance(val[2], tuple) and val[2][:2] == ("call", "search"):
            key, hs = val[2][2]
            if fact == ("=", 32):
                return ("miss", key, hs)
            if fact[0] == "!" and 32 in fact[1]:
                return ("hit", key, hs)
        if q[0] == "entry" and val == ("disc", q[1]) and fact[0] == "=":
            return self.initial(q[2][fact[1]], ("fld", 0, ("dc", fact[1], q[1])))
        return q

    def initial(self, t, v):
        """The state in which an operation on an entry starts."""
        T = self.F.types[t]
        while T["k"] == "ref":
            T = self.F.types[T["a"][0]]
        if T["k"] == "adt" and T["adt"] in self.vacant:
            ki, hi = self.vacant[T["adt"]]
            fs = T["fields"][0]
            return ("miss", ("fld", fs[ki][0], v), ("fld", fs[hi][0], v) if hi is not None else None)
        if T["k"] == "adt" and T["adt"] in self.occupied:
            return ("hit", None, None)
        if "variants" in T and T["adt"].startswith("hash_") and any(self.initial(x[0][1], v)[0] for x in T["fields"] if len(x) == 1):
            return ("entry", v, tuple(x[0][1] if x else -1 for x in T["fields"]))
        return (None, None, None)

    def on_agg(self, cx, adt, variant, vals, q):
        if adt in self.vacant:
            st, key, hs = q
            self.seen["vacant entries"].add(cx.site)
            if st != "miss":
                self.E.report(cx, "vacant:%s" % cx.f.n, "%s makes a vacant entry without having searched for the key under the lock it holds" % cx.f.n)
            k, h = self.vacant[adt]
            for name, i, x in (("key", k, key), ("hash", h, hs)):
                if i is not None and vals[i] is not None and x is not None:
                    self.seen["keys compared" if name == "key" else "hashes compared"].add(cx.site)
                    if vals[i] != x:
                        self.E.report(cx, "vacant %s:%s" % (name, cx.f.n), "%s makes a vacant entry for another %s than it searched for" % (cx.f.n, name))
        return q

    def on_yield(self, cx, q):
        return q

    def poll_extern(self, cx, fut, q):
        if fut is not None and fut[0] == "call" and acq_mode(fut[1]):
            return [((None, None, None), ("i", 1)), ((None, None, None), ("i", 0))], [q]
        return Rule.poll_extern(self, cx, fut, q)


def norm(v, hs):
    """An index expression in terms of the hash."""
    return "hash" if v == hs else tuple(norm(x, hs) for x in v) if isinstance(v, tuple) else v


def ats(v):
    """The indexes by which the bucket and the data block in a value were taken from their array."""
    if not isinstance(v, tuple):
        return []
    if v[:2] == ("call", "at"):
        return [v]
    return [y for x in v for y in ats(x)]


def kinds(F):
    """Entry types: those with a locked bucket and a key -> positions of key and hash; those with a position."""
    g = {"<%s as std::ops::Drop>::drop" % k for k in guard_types(F)}
    vac, occ = {}, set()
    for T in F.types:
        if T["k"] != "adt" or not T["adt"].startswith("hash_") or T["adt"].startswith("hash_table") or "variants" in T or \
                not any(x.get("n") in g for x in T.get("glue", ())) or len(T.get("fields", ())) != 1:
            continue
        fs = T["fields"][0]
        ts = [F.ts(t) for n, t in fs]
        if any(EP.match(t) for t in ts):
            occ.add(T["adt"])
        elif "K" in ts:
            vac[T["adt"]] = (ts.index("K"), ts.index("u64") if "u64" in ts else None)
    return vac, occ


def check(c):
    c.rule = ("per path: an entry is added only after a search with the same key and hash, in the bucket the hash selects, that ended in a "
              "miss under the lock still held; a vacant entry is such a miss; a version added next to an old one replaces it before the unlock")
    F = facts.load()
    removed = {(f.id, i) for f, i, n in flow.sites_on(F, {("hash_table::bucket::Metadata", "removed_bitmap")}, r"atomic::Atomic::(store|fetch_or)$")
               if any("'O'" in F.ts(l[0]) for l in f.locals)}
    r = Keyed(F, removed)
    MAXDEPTH[0] = 14
    E = Engine(F, r, max_states=8000000)
    n = roots = 0
    adders = F.callers_closure(set(r.insert)) | F.callers_closure(set(r.search))
    for f in F.roots():
        if f.id not in adders and not any(g in adders for g in creates(f)):
            continue
        roots += 1
        q = (None, None, None)
        for k in range(f.argc):
            x = r.initial(f.locals[k + 1][0], ("arg", k))
            if x[0]:
                q = x
        for kind, q2, v in E.run_root(f.id, q):
            n += 1
            if kind == "ret" and q2[0] == "two":
                c.fail("two:%s" % f.n, "%s leaves both versions of an entry reachable" % f.n, f.n)
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    most = max((len(v) for v in r.index.values()), default=0)
    for k, v in r.index.items():
        if len(v) < most:
            for w in sorted(v):
                c.fail("index:%s" % w, "%s searches the bucket of another index than other operations do for the same hash" % w, w)
    c.count(n)
    c.floor("operations interpreted", roots, 40)
    for k, least in (("searches", 2), ("insertions", 2), ("vacant entries", 3), ("hashes compared", 4), ("keys compared", 3),
                     ("buckets compared", 1), ("data blocks compared", 1), ("versions replaced", 1)):
        c.floor(k, len(r.seen[k]), least)
    c.analysed["abstract states"] = E.nstates


from rules.locks import creates  # noqa: E402
