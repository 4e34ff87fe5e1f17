"""The slots of a hash bucket: what the bitmaps say and what the slots hold, on every path of every bucket operation.

Values: ("v", role, X) what the cell of X holds on entry; ("off", v, n) v + n; ("bit", i) 1 << i; ("bset"|"bclr", v, i);
("sub", v) v less some members; ("rest", v, n) v less the members already taken; ("tz", v) the smallest member;
("free", v) the smallest non-member; ("andnot", v, m); ("live", X) occupied and not removed; ("above", v, i) members of v that are >= i.
"""
import multiprocessing
import re

import facts
from engine import NONE, UNIT, Engine, Rule, contains, some, truth_of
from facts import cname
from rules.c27 import PAIR

MOD = "hash_table::bucket::"
ORDER = "std::sync::atomic::Ordering"
FULL = (1 << 32) - 1
MASKS = ("v", "va", "bset", "bclr", "sub", "rest", "andnot", "live", "weak", "above", "neg")
PARTS = ("tz", "rest", "sub", "above")
STRONG = {"Acquire": "a", "Release": "r", "AcqRel": "ar", "SeqCst": "ar", "Relaxed": ""}


def base(v):
    """The set a value is a part of."""
    while isinstance(v, tuple) and v[0] in ("sub", "rest", "above"):
        v = v[1]
    return v


def plain(v):
    return ("v",) + v[1:] if isinstance(v, tuple) and v[0] == "va" else v


class Roles:
    """Which field is which, from the types and from what the destructor of an overflow bucket reads."""

    def __init__(self, F):
        self.F = F
        metas = {}
        for t in F.types:
            if t["k"] == "adt" and t["adt"].startswith(MOD) and "fields" in t:
                fs = [(n, F.ts(x)) for n, x in t["fields"][0]]
                at = [n for n, x in fs if "Atomic<u32>" in x]
                if len(at) == 2:
                    metas[t["adt"]] = (fs, at)
        assert len(metas) == 1, metas
        (self.meta, (fs, at)), = metas.items()
        self.ph = next(n for n, x in fs if "UnsafeCell<u8>" in x)
        self.linkf = next(n for n, x in fs if "AtomicShared" in x)
        # The bitmap of removed entries is there for HashIndex only, and is used in fewer places.
        uses, read = dict.fromkeys(at, 0), set()
        for f in F.fns.values():
            if MOD in f.n:
                for b in f.bb:
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "ref":
                            for e in s[2][2][1:]:
                                if isinstance(e, list) and e[0] == "f" and e[2] in at:
                                    uses[e[2]] += 1
                                    if f.n.endswith("std::ops::Drop>::drop") and f.n.startswith("<"):
                                        read.add(e[2])
        self.occ = next(iter(read)) if len(read) == 1 else max(at, key=lambda n: uses[n])
        self.uses = uses
        self.rem = next(n for n in at if n != self.occ)
        self.metaf, self.blkf, self.lenf, self.prevf, self.link, self.bucket = {}, None, None, None, None, None
        for t in F.types:
            if t["k"] == "adt" and t["adt"].startswith(MOD) and "fields" in t:
                fs = [(n, F.ts(x)) for n, x in t["fields"][0]]
                m = [n for n, x in fs if x.startswith(self.meta)]
                if m:
                    self.metaf = m[0]
                    for n, x in fs:
                        if "Atomic<usize>" in x:
                            self.lenf, self.bucket = n, t["adt"]
                        elif "Atomic<*mut" in x:
                            self.prevf, self.link = n, t["adt"]
                        elif "DataBlock" in x:
                            self.blkf = n
        ep = next(t for t in F.types if t["k"] == "adt" and t["adt"] == MOD + "EntryPtr" and "fields" in t)
        self.ptrlink = next(n for n, x in ep["fields"][0] if "*" in F.ts(x))
        self.ptrindex = next(n for n, x in ep["fields"][0] if F.ts(x) == "usize")
        self.guardf = next(n for t in F.types if t["k"] == "adt" and t["adt"] == MOD + "Writer" and "fields" in t for n, x in t["fields"][0])
        assert self.lenf and self.blkf and self.prevf

    def cell(self, v):
        """(role, X) of the cell a value designates."""
        if not isinstance(v, tuple):
            return None
        if v[0] == "fld" and v[1] in (self.occ, self.rem, self.linkf) and isinstance(v[2], tuple):
            m = v[2]
            X = m[2] if m[0] == "fld" and m[1] == self.metaf else ("in", m)
            return {self.occ: "occ", self.rem: "rem", self.linkf: "link"}[v[1]], X
        if v[0] == "fld" and v[1] in (self.lenf, self.prevf):
            return ("len" if v[1] == self.lenf else "prev"), v[2]
        if v[0] == "elem" and isinstance(v[1], tuple) and v[1][0] == "fld" and v[1][1] == self.ph:
            m = v[1][2]
            X = m[2] if isinstance(m, tuple) and m[0] == "fld" and m[1] == self.metaf else ("in", m)
            return ("ph", v[2] if len(v) > 2 else None), X
        return None

    def slot(self, v):
        """(block, index) of the slot a value designates; the block of an overflow bucket X is ("blk", X)."""
        while isinstance(v, tuple) and v[0] == "fld" and v[1] in ("value", "__0") or isinstance(v, tuple) and v[0] == "fld" and v[1] == 0 \
                and isinstance(v[2], tuple) and v[2][0] == "elem":
            v = v[2]
        if not isinstance(v, tuple) or v[0] != "elem":
            return None
        d = v[1]
        if isinstance(d, tuple) and d[0] == "fld" and d[1] == 0:
            d = d[2]
        if isinstance(d, tuple) and d[0] == "fld" and d[1] == self.blkf:
            d = ("blk", d[2])
        return d, v[2] if len(v) > 2 else None


class Slots(Rule):
    indexed = True
    drop_unwinds = False
    MAX = 12

    def __init__(self, F, roots, kind):
        super().__init__(F)
        self.R = Roles(F)
        self.kind = kind        # 'S', 'O', 'C'
        self.mod = {f.id for f in F.fns.values() if (MOD in f.n) and (MOD + "Writer::lock" not in f.n) and (MOD + "Reader" not in f.n)}
        self.roots = roots
        self.setup(None)
        self.n = {"sets": set(), "clears": set(), "moved": set(), "dropped": set(), "len": set(), "removed": set(), "freed": set(),
                  "found": set(), "absent": set(), "filters": set()}
        self.root = None

    def events(self):
        return self.mod

    def user_unwinds(self, cx, callee):
        return callee is None or cname(callee).startswith(("*mut T::drop_in_place", "std::ptr::drop_in_place", "equivalent"))

    def setup(self, f):
        """The parameters of the operation that is explored."""
        self.root = f
        self.buckets, self.blocks, self.want = [], [], None
        self.lookup = self.teardown = self.killing = self.iterate = False
        self.ptr = None
        if f is None:
            return
        for i in range(f.argc):
            t = self.F.ts(f.locals[i + 1][0])
            if re.match(r"&%s<" % self.R.bucket, t):
                self.buckets.append(("arg", i))
            elif re.match(r"&?%sWriter<" % MOD, t):
                self.buckets.append(("fld", self.R.guardf, ("arg", i)))
            elif re.match(r"&(mut )?%sEntryPtr<" % MOD, t):
                self.ptr = ("arg", i)
            elif "NonNull" in t and "DataBlock" in t:
                self.blocks.append(("arg", i))
            elif t == "u64" and self.want is None:
                self.want = ("arg", i)
        r = self.roots[f.id]
        self.lookup, self.teardown, self.killing, self.iterate = (k in r for k in ("lookup", "teardown", "killing", "iterate"))

    # ------------------------------------------------------------ state
    def bad(self, cx, key, msg):
        self.E.report(cx, "%s:%s" % (key, cx.f.n), msg)

    @staticmethod
    def get(q, tag):
        return [t for t in q if t[0] == tag]

    @staticmethod
    def put(q, *ts):
        return q | frozenset(ts)

    def cur(self, q, role, X):
        for t in q:
            if t[0] == "cell" and t[1] == role and t[2] == X:
                return t[3]
        return ("v", role, X)

    def setcell(self, q, role, X, v):
        return frozenset(t for t in q if not (t[0] == "cell" and t[1] == role and t[2] == X)) | {("cell", role, X, v)}

    def fact(self, q, v):
        for t in q:
            if t[0] == "t" and t[1] == v:
                return t[2]
        return None

    def assume(self, q, v, fact):
        """q with what is known about v; None where that contradicts what was known."""
        old = self.fact(q, v)
        if old is not None:
            if old[0] == "=" and (fact[0] == "=" and fact[1] != old[1] or fact[0] == "!" and old[1] in fact[1]):
                return None
            if old[0] == "!" and fact[0] == "=" and fact[1] in old[1]:
                return None
            if old[0] == "=":
                return q
            if fact[0] == "!":
                fact = ("!", tuple(sorted(set(old[1]) | set(fact[1]))))
            q = q - {("t", v, old)}
        return q | {("t", v, fact)}

    def split(self, q, p, yes, no):
        """p is null: yes(), or it is not: no()."""
        out = []
        for n, r in ((1, yes), (0, no)):
            x = self.assume(q, ("null", p), ("=", n))
            if x is not None:
                out.append(("ret", x, r))
        return out

    def forget(self, cx, q, sym):
        """A new thing gets the name of an old one."""
        if not any(contains(t, sym) for t in q):
            return q
        q = self.settle(q)
        for t in q:
            if t[0] in ("w", "rd", "dr", "clr", "set") and contains(t, sym):
                self.bad(cx, "lost", "a slot is left half way (%s) while the next bucket is visited" % t[0])
        return frozenset(t for t in q if not contains(t, sym))

    def purge(self, q, near):
        """Forgets what was found out about overflow buckets that have been left."""
        q = self.settle(q)

        def far(v):
            if not isinstance(v, tuple) or not v or v in near:
                return False
            return v[0] in ("next", "prev") or any(far(x) for x in v)
        nodrop = self.nodrop(q)
        q = frozenset(t for t in q if not (t[0] == "gone" and far(t[1]) and (nodrop or self.all_dropped(q, t[1], t[2]))))
        return frozenset(t for t in q if not (t[0] in ("t", "exh", "did", "mismatch", "before") and far(t[1])
                                              or t[0] == "cell" and t[1] not in ("len", "ptr") and not self.direct(t[2]) and t[2] not in near))

    def on_drop(self, cx, T, v, q):
        if "Shared<" in T.get("s", "") or T["k"] == "adt" and T["adt"].startswith(MOD):
            # An overflow bucket that is not attached is released; one that is not wrapped or filled holds nothing.
            for t in self.get(q, "detached"):
                if v is not None and contains(v, t[1]):
                    q = self.free(cx, t[1], "release", q)[0][1]
            return [("ret", q)]
        return None

    def settle(self, q):
        """Retires complete changes: a written slot whose bit is set, an emptied one whose bit is clear; what they add to the length stays."""
        ch = True
        while ch:
            ch = False
            for t in q:
                if t[0] == "set":
                    for w in q:
                        if w[0] == "w" and w[2] == t[2] and self.same(q, t[1], w[1]):
                            h = [p for p in q if p[0] == "ph" and p[1] == t[1] and p[2] == t[2] and p[3] == self.want]
                            if h:
                                q = self.tally(self.pair(q - {t, w} - set(h), t[1], w[1]), t[1], 1) | {("placed", t[1], t[2])}
                                ch = True
                                break
                elif t[0] == "clr":
                    for w in q:
                        if w[0] in ("rd", "dr") and w[2] == t[2] and self.same(q, t[1], w[1]):
                            q = self.tally(self.pair(q - {t, w}, t[1], w[1]), t[1], -1)
                            ch = True
                            break
                if ch:
                    break
        return q

    def direct(self, X):
        """X is a bucket, not an overflow bucket."""
        return X in self.buckets

    def same(self, q, X, D):
        """The block D holds the entries of X."""
        if D == ("blk", X):
            return True
        if D[0] == "blk" or not self.direct(X):
            return False
        for t in q:
            if t[0] == "pair" and (t[1] == X) != (t[2] == D):
                return False
        return True

    def pair(self, q, X, D):
        return q if D[0] == "blk" else q | {("pair", X, D)}

    def tally(self, q, X, d):
        """live entries of X: +d (overflow buckets counted together)."""
        k = X if self.direct(X) else "added" if d > 0 else "removed"
        old = next((t for t in q if t[0] == "live" and t[1] == k), None)
        n = (old[2] if old else 0) + d
        q = q - {old} if old else q
        return q | {("live", k, max(-3, min(3, n)))}

    # ------------------------------------------------------------ arithmetic
    def on_un(self, op, a):
        if a is None:
            return None
        if op == "Not":
            if a[0] == "i":
                return ("i", FULL ^ a[1])
            if a[0] == "neg":
                return a[1]
            return ("neg", a)
        return None

    def index_of(self, v):
        return v

    def on_binq(self, cx, op, a, b, q):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if a is not None and b is not None and a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            t = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if t is not None:
                return ("i", int(t)), q
            t = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Add": x + y, "Sub": x - y, "Shl": x << (y & 63), "Shr": x >> (y & 63),
                 "Mul": x * y}.get(op)
            return (("i", t) if t is not None else None), q
        if op in ("Eq", "Ne"):
            if a is not None and a[0] == "i":
                a, b = b, a
            if a is None:
                return None, q
            if b is not None and b[0] == "i":
                r = ("eq", a, b[1])
                return (r if op == "Eq" else ("not", r)), q
            if b is None:
                return None, q
            a, b = sorted((a, b), key=repr)
            r = ("same", a, b)
            return (r if op == "Eq" else ("not", r)), q
        if a is None or b is None:
            return None, q
        if op in ("Gt", "Ge"):
            op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
        if op == "Le":
            return ("not", ("lt", b, a)), q
        if op == "Lt":
            return ("lt", a, b), q
        if op == "Shl" and a == ("i", 1):
            return ("bit", b), q
        if op == "Shl" and a == ("i", FULL):
            return ("neg", ("off", ("bit", b), -1)), q
        if op in ("Add", "Sub") and b[0] == "i":
            n = b[1] if op == "Add" else -b[1]
            if a[0] == "off":
                n += a[2]
                return (a[1] if n == 0 else ("off", a[1], n)), q
            return ("off", a, n), q
        if op == "Add" and a[0] == "i":
            return ("off", b, a[1]), q
        if op in ("BitOr", "BitAnd", "BitXor") and b[0] in MASKS and b[0] != "neg" and (a[0] in ("bit", "neg", "off")):
            a, b = b, a
        if op in ("BitOr", "BitAnd", "BitXor", "Sub") and b[0] == "i" and (a[0] in MASKS and a[0] != "neg" or a[0] in ("bclr",)):
            if op == "BitAnd" and b[1] & FULL == FULL:
                return a, q
            if op != "BitAnd" and b[1] and not b[1] & (b[1] - 1):
                b = ("bit", ("i", b[1].bit_length() - 1))
            elif op == "BitAnd":
                m = FULL ^ (b[1] & FULL)
                if b[1] and not b[1] & (b[1] - 1):
                    b = ("bit", ("i", b[1].bit_length() - 1))
                elif m and not m & (m - 1):
                    return self.clear(cx, a, ("i", m.bit_length() - 1), q)
        if op == "BitOr" and b[0] == "bit":
            return ("bset", plain(a), b[1]), q
        if op == "BitAnd":
            if b[0] == "neg":
                m = b[1]
                if m[0] == "bit":
                    return self.clear(cx, a, m[1], q)
                if m[0] == "off" and m[1][0] == "bit" and m[2] == -1:
                    return ("above", a, m[1][1]), q
                if a[0] == "va" and a[1] == "occ" and m[0] in ("v", "va") and m[1] == "rem" and m[2] == a[2]:
                    return ("live", a[2]), q
                if a[0] == "v" and a[1] == "occ" and m[0] in ("v", "va") and m[1] == "rem" and m[2] == a[2]:
                    return ("weak", a[2]), q
                return ("andnot", plain(a), m), q
            if b[0] == "bit":
                return ("has", a, b[1]), q
            if b == ("off", a, -1):
                return self.clear(cx, a, ("tz", a), q)
        if op in ("Sub", "BitXor") and b[0] == "bit" and b[1] == ("tz", a):
            return self.clear(cx, a, b[1], q)
        if op in ("BitAnd", "BitOr", "BitXor", "Add", "Sub", "Shl", "Shr", "Mul"):
            return ("bin", op, a, b), q
        return None, q

    def clear(self, cx, a, i, q):
        """The value of a & !(1 << i)."""
        if a[0] == "i":
            return None, q
        if i == ("tz", a) and ("must", i) not in q:
            nz = self.nonempty(q, a)
            q = frozenset(t for t in self.stale(self.taken(cx, a, q), a) if t[0] != "held")
            if nz:
                q = q | {("held", a)}
            r = ("rest", base(a) if a[0] == "rest" else a, 2 if a[0] == "rest" and a[2] == 1 else 1)
            return r, frozenset(t for t in q if not contains(t, r))
        if i is not None and (i[0] == "i" and (self.lookup or plain(base(a))[1:2] != ("occ",))
                              or i[0] == "tz" and base(i[1]) == base(a) and plain(base(a))[1:2] == ("rem",)):
            b = a[1] if a[0] == "sub" else a
            q = self.dropped_out(cx, b, i, q)
            return ("sub", b), q
        return ("bclr", plain(a), i), q

    def dropped_out(self, cx, b, i, q):
        """Member i is taken out of a set that is being filtered."""
        self.n["filters"].add((cx.f.n, "clear"))
        q2 = q - {("must", i)}
        if b[0] in ("live", "weak", "va") or b[0] == "v" and b[1] == "occ":
            # Searching: only slots whose partial hash differs may be skipped.
            if ("mismatch", i) not in q:
                self.bad(cx, "skipped", "a slot is left out of a search although its partial hash was not found to differ")
        return q2

    @staticmethod
    def stale(q, m):
        """What was found out about the parts of a set is of no use any more."""
        return frozenset(t for t in q if not (t[0] == "t" and t[1][0] in PARTS and contains(t[1], m) or t[0] == "mismatch"))

    def nonempty(self, q, m):
        f, g, h = self.fact(q, m), self.fact(q, ("tz", m)), self.fact(q, ("lt", ("tz", m), ("i", 32)))
        return bool(("held", m) in q or f and f[0] == "!" and 0 in f[1] or g and g[0] == "!" and 32 in g[1] or h and truth_of(h))

    def taken(self, cx, a, q):
        """The smallest member of a leaves it: it has been dealt with, or will be before the next one is."""
        if any(t[0] == "must" and t[1] is not None and t[1][0] == "tz" for t in q):
            self.bad(cx, "epoch", "an entry removed in the current generation is given up although readers may still hold it")
            q = frozenset(t for t in q if t[0] != "must")
        owed = self.get(q, "owed")
        if owed:
            self.bad(cx, "skipped", OWED)
            q = q - set(owed)
        if ("turn", a) in q:
            return q - {("turn", a)}
        return q | {("owed", ("tz", a))}

    # ------------------------------------------------------------ branches
    def on_branch(self, cx, v, fact, q):
        if v is None:
            return q
        if v[0] in MASKS and not (v[0] == "andnot" and v[1][:2] == ("v", "rem")) or v[0] in ("tz", "free", "null", "hd", "lt", "same", "has", "off", "fld") or v[0] == "call" and v[1] == "needs":
            q = self.assume(q, v, fact)
            if q is None:
                return None
            fact = self.fact(q, v)
        k = v
        if k[0] == "tz" and fact == ("=", 32):
            q = self.exhausted(cx, k[1], q)
        elif k[0] == "lt" and k[1][0] == "tz" and truth_of(fact) is False and k[2] in (("i", 32), ("i", self.nslots(plain(base(k[1][1]))[-1]))):
            q = self.exhausted(cx, k[1][1], q)
        elif k[0] in MASKS and fact == ("=", 0):
            q = self.exhausted(cx, k, q)
        elif k[0] == "same" and self.phash(k) is not None:
            i = self.phash(k)
            q = frozenset(t for t in q if t[0] != "mismatch" and not (t[0] == "t" and t[1][0] == "same"))
            if truth_of(fact) is False:
                q = q | {("mismatch", i)}
                if i is not None and i[0] == "tz":
                    q = q - {("owed", i)} if ("owed", i) in q else q | {("turn", i[1])}
        elif k[0] == "equiv":
            if truth_of(fact):
                q = q - {("owed", k[2])} | {("equal", k[1], k[2])}
            elif k[2] is not None and ("owed", k[2]) in q:
                q = q - {("owed", k[2])}
            else:
                q = q | {("turn", k[2][1])} if k[2] is not None and k[2][0] == "tz" else q
        elif k[0] == "has" and truth_of(fact) is False and k[2] is not None and k[2][0] == "i":
            q = q - {("t", v, fact)} | {("did", plain(k[1]), k[2])}
        return q

    def phash(self, k):
        """The slot whose partial hash is compared with the one looked for."""
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            c = self.R.cell(a)
            if c and isinstance(c[0], tuple) and c[0][0] == "ph" and b == self.want:
                return c[0][1]
        return None

    def exhausted(self, cx, m, q):
        owed = self.get(q, "owed")
        if owed:
            self.bad(cx, "skipped", OWED)
        b = m
        while b[0] in ("sub", "rest"):
            b = b[1]
        q = self.stale(frozenset(t for t in q - set(owed) if t[0] != "held"), m)
        if b[0] == "andnot":
            return q
        if not self.get(q, "turn"):
            g = [t for t in q if t[0] == "gone" and plain(base(t[2])) == plain(b)]
            if g:
                return frozenset(t for t in q - set(g) if not (t[0] == "t" and t[1][0] in PARTS and contains(t[1], b)))
        return frozenset(t for t in q if not (t[0] == "t" and t[1][0] == "tz" and contains(t[1], b))) | {("exh", plain(b))}

    # ------------------------------------------------------------ loads and stores of the cells
    def order(self, v):
        if v is not None and v[0] == "agg" and v[1] == ORDER:
            return STRONG[self.orders[v[2]]]
        return ""

    @property
    def orders(self):
        t = next((t for t in self.F.types if t["k"] == "adt" and t["adt"] == ORDER and "variants" in t), None)
        return t["variants"] if t else ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"]

    def load(self, cx, c, mo, q):
        role, X = c
        if role == "rem" and self.kind == "O":
            q = self.purge(q, {X} | {t[1] for t in q if t[0] == "before" and t[2] == X})
        v = self.cur(q, role, X)
        if role == "rem" and "a" in mo:
            q = q | {("remacq", X)}
        if role == "occ" and v == ("v", "occ", X) and "a" in mo and ("remacq", X) in q:
            v = ("va", "occ", X)
        return v, q

    def store(self, cx, c, v, mo, q):
        role, X = c
        old = self.cur(q, role, X)
        if role == "occ":
            return self.store_occ(cx, X, old, v, mo, q)
        if role == "rem":
            return self.store_rem(cx, X, old, v, mo, q)
        if role == "len":
            return self.store_len(cx, X, old, v, q)
        return self.setcell(q, role, X, v)

    def where(self, cx):
        return (cx.f.n, cx.sp)

    def store_occ(self, cx, X, old, v, mo, q):
        q = self.setcell(q, "occ", X, v if v is not None else ("v", "occ", ("?", X)))
        if v is None:
            self.bad(cx, "bitmap", "the bitmap of occupied slots is overwritten by a value that is not derived from it")
            return q
        if v[0] in ("live", "weak"):
            v = ("andnot", ("v", "occ", v[1]), ("v", "rem", v[1]))
        if v[0] == "i" and old[0] == "i":
            n = v[1] & ~old[1]
            if old[1] & ~v[1] or n & (n - 1) or not n:
                self.bad(cx, "bitmap", "the bitmap of occupied slots is overwritten by a constant")
                return q
            v = ("bset", old, ("i", n.bit_length() - 1))
        if v[0] == "bset" and plain(v[1]) == old:
            i = v[2]
            self.n["sets"].add(self.where(cx))
            if self.kind == "O":
                if not any(t[0] == "w" and t[2] == i and self.same(q, X, t[1]) for t in q) or \
                        not any(t[0] == "ph" and t[1] == X and t[2] == i for t in q):
                    self.bad(cx, "early", "a slot is published before its entry and its partial hash are written")
                if "r" not in mo and (X[0] != "new" or any(t[0] == "headed" and t[1] == X for t in q)):
                    self.bad(cx, "order", "a slot is published to lock-free readers without release ordering")
            return self.settle(q | {("set", X, i)})
        if v[0] == "bclr" and plain(v[1]) == old:
            self.n["clears"].add(self.where(cx))
            if self.kind == "C" and self.direct(X) and X == self.buckets[0] and not self.lookup:
                q = q | {("freeslot", X, v[2])}
            if self.kind == "O":
                if "r" not in mo:
                    self.bad(cx, "order", "a moved entry is hidden from lock-free readers without release ordering")
                if not any(t[0] == "live" and t[2] == 1 for t in self.settle(q)):
                    self.bad(cx, "gap", "an entry is hidden from lock-free readers before it is published at its new place")
            return self.settle(q | {("clr", X, v[2])})
        if v[0] == "andnot" and plain(v[1]) == old:
            self.n["clears"].add(self.where(cx))
            return self.mask(cx, X, v[2], q | {("occmask", X, v[2])})
        self.bad(cx, "bitmap", "the bitmap of occupied slots is not updated from its current value")
        return q

    def mask(self, cx, X, m, q):
        """The slots in m are given up: they must be removed ones that no reader can still see."""
        b = plain(base(m))
        if b != ("v", "rem", X):
            self.bad(cx, "mask", "slots are given up that are not the removed ones of the same bucket")
        q = self.filtered(cx, X, q)
        return frozenset(t for t in q if t[0] not in ("seen", "must", "decoded"))

    def undecided(self, cx, q):
        d = self.get(q, "decoded")
        if d:
            self.bad(cx, "epoch", "the generation in which an entry was removed is not compared with the current one")
        return q - set(d) | {("seen", t[1]) for t in d}

    def filtered(self, cx, X, q):
        q = self.undecided(cx, q)
        if self.get(q, "must"):
            self.bad(cx, "epoch", "an entry removed in the current generation is given up although readers may still hold it")
        seen = {t[1][1] for t in q if t[0] == "seen" and t[1] is not None and t[1][0] == "i"}
        n = self.nslots(X)
        if ("exh", ("v", "rem", X)) in q:
            q = q - {("exh", ("v", "rem", X))}
        elif seen != set(range(n)):
            self.bad(cx, "epoch", "removed entries are given up without having compared the generation of each with the current one")
        self.n["filters"].add((cx.f.n, "epoch"))
        return q

    def nslots(self, X):
        return 32 if self.direct(X) else 8

    def store_rem(self, cx, X, old, v, mo, q):
        q = self.setcell(q, "rem", X, v if v is not None else ("v", "rem", ("?", X)))
        if self.kind != "O":
            for t in q:
                if t[0] == "lru" and t[1] == X and v == ("newtail", t[2]):
                    return q - {t} | {("unlinked", X, t[2])}
            if self.kind == "S":
                self.bad(cx, "bitmap", "the bitmap of removed slots is used where removed entries are not kept")
            return q
        if v is not None and v[0] == "bset" and plain(v[1]) == old:
            self.n["removed"].add(self.where(cx))
            h = [t for t in q if t[0] == "ph" and t[1] == X and t[2] == v[2]]
            if not h or not contains(h[0], ("epoch", "now")):
                self.bad(cx, "epoch", "an entry is marked as removed before the epoch of its removal is recorded in its slot")
            if "r" not in mo:
                self.bad(cx, "order", "an entry is marked as removed without release ordering")
            return self.tally(q - set(h), X, -1)
        if v is not None and v[0] == "andnot" and plain(v[1]) == old:
            if ("occmask", X, v[2]) not in q:
                self.bad(cx, "revived", "a slot ceases to be marked as removed while its entry is still marked as present")
            if "r" not in mo:
                self.bad(cx, "order", "a slot ceases to be marked as removed without release ordering")
            return q - {("occmask", X, v[2])} | {("gone", X, v[2])}
        self.bad(cx, "bitmap", "the bitmap of removed slots is not updated from its current value")
        return q

    def store_len(self, cx, X, old, v, q):
        o = old if old[0] != "off" else old[1]
        if v is None or v[0] != "off" and v != o or v[0] == "off" and v[1] != o:
            self.bad(cx, "len", "the number of entries is not updated from its current value")
            return self.setcell(q, "len", X, ("v", "len", X))
        self.n["len"].add(self.where(cx))
        return self.setcell(q, "len", X, v)

    # ------------------------------------------------------------ slots
    def write(self, cx, s, v, q):
        D, i = s
        if any(t[0] == "w" and t[1] == D and t[2] == i for t in q):
            self.bad(cx, "overwritten", "a slot is written twice")
        X = self.owner(q, D)
        cur = self.cur(q, "occ", X) if X is not None else None
        ok = False
        if i is None or X is None:
            pass
        elif cur[0] == "i":
            ok = i[0] == "i" and not cur[1] >> i[1] & 1
        elif i == ("free", plain(cur)):
            ok = True
            n = self.nslots(X)
            f, g = self.fact(q, i), self.fact(q, ("lt", i, ("i", n)))
            full = self.fact(q, cur)
            if not (f and f[0] == "!" and n in f[1] or g and truth_of(g) or full and full[0] == "!" and (1 << n) - 1 in full[1]):
                self.bad(cx, "full", "an entry is put in a slot without having checked that one of the %d is free" % n)
        if not ok:
            self.bad(cx, "overwritten", "an entry is written to a slot that is not known to be free")
        return self.settle(q | {("w", D, i, None)})

    def owner(self, q, D):
        if D[0] == "blk":
            return D[1]
        for t in q:
            if t[0] == "pair" and t[2] == D:
                return t[1]
        # The block handed to an operation belongs to the bucket it is an operation of.
        return self.buckets[0] if D == self.blocks[0] else None

    def take(self, cx, s, q, kind):
        D, i = s
        key = ("rd" if kind == "rd" else "dr")
        self.n["moved" if kind == "rd" else "dropped"].add(self.where(cx))
        if i is None:
            self.bad(cx, "unknown", "an entry is taken from a slot whose index is not known")
            return q
        if any(t[0] in ("rd", "dr") and t[1] == D and t[2] == i for t in q):
            self.bad(cx, "twice", "the entry of a slot is moved out or dropped twice")
        if kind == "dr":
            m = i[1] if i[0] == "tz" else None
            if m is not None:
                return self.drop_member(cx, D, m, q)
            h = [t for t in q if t[0] == "t" and t[1][0] == "has" and t[1][2] == i and truth_of(t[2])]
            if i[0] == "i" and h:
                return q - set(h) | {("did", plain(h[0][1][1]), i)}
        return self.settle(q | {(key, D, i)})

    def drop_member(self, cx, D, m, q):
        """One member of a set of slots is dropped."""
        b = plain(base(m))
        if not self.nonempty(q, m):
            self.bad(cx, "empty", "an entry is dropped from a set of slots that may be empty")
        if ("turn", m) in q:
            self.bad(cx, "twice", "the entry of a slot is dropped twice")
        late = ("owed", ("tz", m)) in q
        X = self.owner(q, D)
        if b == ("v", "rem", X):
            if not any(t[0] == "gone" and t[1] == X and base(t[2]) == base(m) or t[0] == "gone" and t[1] == X and t[2] == self.setof(m)
                       for t in q):
                self.bad(cx, "early", "removed entries are dropped before their slots are cleared")
        elif b == ("v", "occ", X):
            q = q | {("destroy", X)}
        else:
            self.bad(cx, "mask", "entries are dropped that are not those of the bucket")
        return q - {("owed", ("tz", m))} if late else q | {("turn", m)}

    def setof(self, m):
        return m[1] if m[0] == "rest" else m

    # ------------------------------------------------------------ calls
    def on_call(self, cx, c, args, q):
        name = cname(c)
        a0 = args[0] if args else None
        short = name.rsplit("::", 1)[-1]
        R = self.R
        if "atomic::Atomic::" in name:
            cell = R.cell(a0)
            if cell is None:
                return None
            return self.atomic(cx, short, cell, args, q)
        if name.endswith("Atomic as std::default::Default>::default"):
            return [("ret", q, ("i", 0))]
        if name.endswith("atomic::Atomic::new"):
            return [("ret", q, a0)]
        if short in ("as_ptr", "as_mut_ptr", "assume_init_ref", "assume_init_mut") and "MaybeUninit" in name:
            return [("ret", q, a0)]
        if "MaybeUninit" in name and short in ("write", "assume_init_read", "assume_init_drop") or SLOTFN.match(name):
            s = R.slot(a0)
            if s is None:
                return [("ret", q, a0)] if short == "read" else None
            if short == "write":
                return [("ret", self.write(cx, s, args[1], q), UNIT)]
            if short in ("read", "assume_init_read"):
                return [("ret", self.take(cx, s, q, "rd"), ("moved", s[0], s[1]))]
            if short in ("drop_in_place", "assume_init_drop"):
                q = self.take(cx, s, q, "dr")
                return [("ret", q, UNIT), ("unwind", q, None)]
            return None
        if name == "std::ptr::null" or name == "std::ptr::null_mut":
            return [("ret", q, ("nil",))]
        if short == "as_ref" and name.startswith(("*const T", "*mut T")) or name == "sdd::Ptr::as_ref":
            return self.deref(cx, a0, q)
        if short == "is_null" and name.startswith(("*const T", "*mut T", "sdd::Ptr")):
            if a0 == ("nil",):
                return [("ret", q, ("i", 1))]
            return [("ret", q, ("null", a0) if a0 is not None else None)]
        if name.startswith("sdd::AtomicShared::") or name.startswith("<sdd::AtomicShared"):
            if short == "default":
                return [("ret", q, ("nil",))]
            if short in ("from", "new"):
                return [("ret", q, a0)]
            cell = R.cell(a0)
            if cell is not None and cell[0] == "link":
                return self.links(cx, short, cell[1], args, q)
            return None
        if name in ("sdd::Ptr::as_ptr_unchecked", "sdd::Ptr::as_ptr", "sdd::Ptr::as_ref_unchecked", "sdd::Ptr::get_shared"):
            return [("ret", q, a0)]
        if name in ("sdd::Shared::new_unchecked", "sdd::Shared::new", "sdd::Shared::new_with", "sdd::Shared::new_with_unchecked"):
            return self.fresh(cx, a0, q)
        if name in ("sdd::Shared::drop_in_place", "sdd::Shared::release"):
            return self.free(cx, a0, short, q)
        if short in ("trailing_ones", "trailing_zeros", "count_ones", "count_zeros") and "u32" in name:
            if a0 is None:
                return [("ret", q, None)]
            if a0[0] == "i":
                x = a0[1]
                tz = lambda y: next((k for k in range(32) if y >> k & 1), 32)
                return [("ret", q, ("i", {"trailing_ones": tz(FULL ^ x), "trailing_zeros": tz(x), "count_ones": bin(x).count("1"),
                                          "count_zeros": 32 - bin(x).count("1")}[short]))]
            if short == "trailing_ones":
                return [("ret", q, ("free", plain(a0)))]
            if short == "trailing_zeros":
                if a0[0] == "neg":
                    return [("ret", q, ("free", plain(a0[1])))]
                return [("ret", q, ("tz", a0))]
            return [("ret", q, None)]
        if name == "std::mem::needs_drop":
            return [("ret", q, ("call", "needs", (), 0))]
        if name == "<sdd::Epoch as std::convert::TryFrom>::try_from":
            cl = R.cell(a0)
            i = cl[0][1] if cl and isinstance(cl[0], tuple) else None
            q = self.undecided(cx, q)
            return [("ret", q | {("decoded", i)}, ("agg", RESULT, 0, (("epoch", i),), 0)), ("ret", q - {("owed", i)} | {("seen", i)}, ("agg", RESULT, 1, (None,), 1))]
        if name == "sdd::Epoch::in_same_generation":
            e = next((x for x in args if self.epoch_index(x) is not None), None)
            o = [x for x in args if x != e]
            if e is None or not o or o[0] is None or not contains(o[0], ("epoch_now",)):
                return [("ret", q, None)]
            i = self.epoch_index(e)
            q = q - {("decoded", i), ("owed", i)}
            return [("ret", q | {("seen", i), ("must", i)}, ("i", 1)), ("ret", q | {("seen", i)}, ("i", 0))]
        if name == "sdd::Guard::epoch":
            return [("ret", q, ("epoch_now",))]
        if name.endswith("std::convert::From>::from") and a0 == ("epoch_now",):
            return [("ret", q, ("epoch", "now"))]
        if c["n"].startswith(MOD + "LruList::"):
            return self.lru(cx, short, args, q)
        if c["n"] == "equivalent::Equivalent::equivalent" or short in ("eq", "ne") and c.get("how") == "unresolved":
            return self.compare(cx, args, short, q)
        if name.startswith("saa::Lock::") or name == "std::mem::forget":
            return [("ret", q, None)]
        return None

    def epoch_index(self, v):
        while isinstance(v, tuple) and v[0] in ("fld", "dc"):
            v = v[2]
        return v[1] if isinstance(v, tuple) and v[0] == "epoch" else None

    def atomic(self, cx, short, cell, args, q):
        mo = self.order(args[-1])
        role = cell[0]
        if short == "load":
            v, q = self.load(cx, cell, mo, q)
            if role == "prev":
                return self.prev(cx, cell[1], v, q)
            return [("ret", q, v)]
        if short == "store":
            if role == "prev":
                return [("ret", q | {("prevset", cell[1], args[1])}, UNIT)]
            return [("ret", self.store(cx, cell, args[1], mo, q), UNIT)]
        old = self.cur(q, *cell)
        if role == "len" and short in ("fetch_add", "fetch_sub"):
            v, q2 = self.on_binq(cx, "Add" if short == "fetch_add" else "Sub", old, args[1], q)
        elif short in ("fetch_and", "fetch_or", "fetch_xor"):
            v, q2 = self.on_binq(cx, "Bit" + short[6:].capitalize(), old, args[1], q)
        elif short == "swap":
            v, q2 = args[1], q
        else:
            self.bad(cx, "bitmap", "%s of a field of a bucket is not understood" % short)
            return [("ret", q, None)]
        return [("ret", self.store(cx, cell, v, mo, q2), old)]

    def prev(self, cx, X, v, q):
        n = 2 if X[0] == "prev" and X[2] == 1 else 1
        r = ("prev", X[1] if X[0] == "prev" else X, n)
        q = self.purge(self.forget(cx, q, r), {r, X})
        return [("ret", q | {("before", r, X)}, r)]

    def deref(self, cx, p, q):
        if p is None:
            return None
        if p == ("nil",):
            return [("ret", q, NONE)]
        if p[0] in ("new", "va") :
            return [("ret", q, some(p))]
        return self.split(q, p, NONE, some(p))

    def links(self, cx, short, X, args, q):
        if short == "is_null":
            v = self.cur(q, "link", X)
            if v == ("nil",):
                return [("ret", q, ("i", 1))]
            return [("ret", q, ("null", v))]
        if short == "load":
            v = self.cur(q, "link", X)
            if v == ("v", "link", X):
                n = {1: 2, 2: 3, 3: 2}[X[2]] if X[0] == "next" else 1
                v = ("next", self.origin(X), n)
                q = self.leave(cx, X, q)
                q = self.purge(self.forget(cx, q, v), {X, v})
                q = self.setcell(q, "link", X, v)
            return [("ret", q, v)]
        if short == "get_shared":
            v = self.cur(q, "link", X)
            if v == ("v", "link", X):
                v = ("next", self.origin(X), 1)
                q = self.setcell(q, "link", X, v)
            return self.split(q, v, NONE, some(v))
        if short == "swap":
            new = args[1][3][0] if args[1] is not None and args[1][0] == "agg" and args[1][3] else None
            return self.swap(cx, X, new, self.order(args[2]), q)
        self.bad(cx, "links", "%s of a link between buckets is not understood" % short)
        return None

    def origin(self, X):
        return X[1] if X[0] == "next" else X

    # ------------------------------------------------------------ iteration
    def start(self, q, X, s):
        """s is where to go on in X: behind the entry the pointer points to if X holds it, otherwise at its first slot."""
        i, n = ("fld", self.R.ptrindex, self.ptr), ("i", self.nslots(X))
        at = self.pointed(q)
        if s == ("i", 0):
            return X != at or self.fact(q, i) == ("=", n[1])
        return X == at and s == ("off", i, 1)

    def pointed(self, q):
        l = ("fld", self.R.ptrlink, self.ptr)
        return self.buckets[0] if self.truthnull(q, l) is True else l

    def passed(self, q, X):
        """No live entry of X is left to be visited."""
        L = ("live", X) if self.kind == "O" else ("v", "occ", X)
        for t in q:
            if t[0] == "exh" and (t[1] == L and self.start(q, X, ("i", 0)) or t[1][0] == "above" and plain(t[1][1]) == L and self.start(q, X, t[1][2])):
                return True
            if t[0] == "t" and t[1][0] == "lt" and t[1][1][0] == "off" and t[1][2] == ("i", self.nslots(X)) and truth_of(t[2]) is False \
                    and self.start(q, X, t[1][1]):
                return True
            if t[0] == "t" and t[1] == ("fld", self.R.ptrindex, self.ptr) and t[2] == ("=", self.nslots(X) - 1) and X == self.pointed(q):
                return True
        return False

    def visited(self, fail, q, val):
        """What a step of an iteration did."""
        i, l = self.field(q, self.R.ptrindex), self.field(q, self.R.ptrlink)
        i0 = ("fld", self.R.ptrindex, self.ptr)
        if val is None or val[0] != "i":
            fail("unknown", "what a step of an iteration returns is not understood")
        elif val[1]:
            m = i[1] if isinstance(i, tuple) and i[0] == "tz" else None
            L = base(m) if m is not None else None
            s = m[2] if m is not None and m[0] == "above" else ("i", 0)
            X = L[-1] if L is not None else None
            want = ("live", X) if self.kind == "O" else ("v", "occ", X)
            if L is None or plain(L) != want or m not in (L, ("above", L, s)):
                fail("visited", "an iteration visits a slot that is not the next live one of its bucket")
                return
            at = l == X or self.direct(X) and (l == ("nil",) or self.truthnull(q, l) is True)
            if not at:
                fail("visited", "an iteration points to a slot of another bucket than the one it searched")
            if not self.start(q, X, s):
                fail("visited", "an iteration skips a slot or visits one twice")
            n = self.nslots(X)
            f, g, nz = self.fact(q, i), self.fact(q, ("lt", i, ("i", n))), self.fact(q, m)
            if not (g and truth_of(g) or f and f[0] == "!" and 32 in f[1] or nz and nz[0] == "!" and 0 in nz[1]):
                fail("visited", "an iteration visits a slot without knowing that there is one left")
            self.n["found"].add(self.root.n)
        else:
            self.n["absent"].add(self.root.n)
            if i != ("i", (1 << 64) - 1) and not (i == i0 and self.fact(q, i0) == ("=", (1 << 64) - 1)):
                fail("visited", "an iteration that has ended does not stay so")
            if self.fact(q, i0) == ("=", (1 << 64) - 1):
                return
            ends = [t[2] for t in q if t[0] == "cell" and t[1] == "link" and self.truthnull(q, t[3]) is True]
            if not any(self.passed(q, X) for X in ends):
                fail("visited", "an iteration ends before the last overflow bucket was visited")

    def kept(self, fail, q):
        """The pointer to the entry that is removed is left where the iteration can go on."""
        i, l = self.field(q, self.R.ptrindex), self.field(q, self.R.ptrlink)
        i0, l0 = ("fld", self.R.ptrindex, self.ptr), ("fld", self.R.ptrlink, self.ptr)
        if ("freedlink", l0) in q:
            nxt = ("next", l0, 1)
            if l == nxt and self.truthnull(q, nxt) is False:
                ok = i == ("i", 8)
            else:
                ok = i == ("i", (1 << 64) - 1) and l != l0 and self.truthnull(q, nxt) is True
            if not ok:
                fail("pointer", "after the overflow bucket of an entry was freed, the pointer to the entry is not moved to the next one")
        elif (i, l) != (i0, l0):
            fail("pointer", "the pointer to an entry is moved although its bucket stays")

    def leave(self, cx, X, q):
        """The search goes on beyond X."""
        if self.iterate and not self.passed(q, X):
            self.bad(cx, "visited", "an iteration leaves a bucket that it may not have finished")
        if self.lookup and not self.done_with(q, X):
            self.bad(cx, "skipped", "a search leaves a bucket whose candidates it has not all compared")
        return q

    def done_with(self, q, X):
        want = ("live", X) if self.kind == "O" else ("v", "occ", X)
        return ("exh", want) in q or self.direct(X) and self.fact(q, ("v", "len", X)) == ("=", 0)

    def swap(self, cx, X, new, mo, q):
        old = self.cur(q, "link", X)
        if new is not None and new[0] == "agg":
            nv = new[3][0] if new[2] == 1 else ("nil",)
        else:
            nv = None if new is None else new
        if nv is not None and nv[0] == "new":
            # A new overflow bucket becomes visible.
            tail = self.cur(q, "link", nv)
            head = old
            ok = tail == head or tail == ("nil",) and self.truthnull(q, head) is True
            if not ok:
                self.bad(cx, "chain", "a new overflow bucket replaces the chain of those before it")
            if self.kind == "O":
                if "r" not in mo:
                    self.bad(cx, "order", "a new overflow bucket is published without release ordering")
            q = q | {("headed", nv, head)}
            if not self.direct(X):
                if ("prevset", nv, X) not in q:
                    self.bad(cx, "chain", "a new overflow bucket does not point back to the one it is attached to")
        elif nv is not None and nv != ("nil",) and self.truthnull(q, nv) is not True:
            q = q | {("reattached", nv, X)}
        q = self.setcell(q, "link", X, nv if nv is not None else ("v", "link", ("?", X)))
        q = q - {("detached", nv)}
        # What was attached there.
        out = ("next", X, 1) if old == ("v", "link", X) else old
        if out == ("nil",):
            return [("ret", q, ("agg", "tuple", None, (NONE, None), None))]
        what = None
        for t in q:
            if t[0] == "before" and t[1] == X:
                what = t[2]     # X comes before it: it is what X is linked to
            elif t[0] == "before" and self.direct(X) and self.truthnull(q, t[1]) is True:
                what = t[2]
        if what is not None:
            out = what
            q = q | {("detached", what)}
            return [("ret", q, ("agg", "tuple", None, (("agg", OPTION, 1, (out,), 1), None), None))]
        n = {1: 2, 2: 3, 3: 2}[X[2]] if X[0] == "next" and out == ("next", self.origin(X), X[2]) else None
        if n:
            out = ("next", self.origin(X), n)
        gone = set() if nv is not None and nv[0] == "new" else {("detached", out)}
        pair = lambda x: ("agg", "tuple", None, (x, None), None)
        return [(k, r | gone if v is not NONE else r, pair(v)) for k, r, v in self.split(q, out, NONE, some(out))]

    def fresh(self, cx, v, q):
        s = ("new", cx.site[0], cx.site[1])
        q = self.forget(cx, q, s)
        if v is None or v[0] != "agg" or v[1] != self.R.link:
            self.bad(cx, "unknown", "an overflow bucket is made of something that is not understood")
            return [("ret", q, s)]
        T = next(t for t in self.F.types if t["k"] == "adt" and t["adt"] == self.R.link and "fields" in t)
        names = [n for n, x in T["fields"][0]]
        m = v[3][names.index(self.R.metaf)]
        M = next(t for t in self.F.types if t["k"] == "adt" and t["adt"] == self.R.meta and "fields" in t)
        mn = [n for n, x in M["fields"][0]]
        if m is None or m[0] != "agg":
            self.bad(cx, "unknown", "an overflow bucket is made of something that is not understood")
            return [("ret", q, s)]
        for role, fld in (("occ", self.R.occ), ("rem", self.R.rem), ("link", self.R.linkf)):
            x = m[3][mn.index(fld)]
            if role != "link" and x != ("i", 0):
                self.bad(cx, "bitmap", "a new overflow bucket is not empty")
            q = self.setcell(q, role, s, x if x is not None else ("v", role, ("?", s)))
        return [("ret", q, s)]

    def free(self, cx, X, how, q):
        if X is None or X[0] not in ("next", "prev", "fld", "arg", "new") and not self.islink(X):
            return None
        self.n["freed"].add(self.where(cx))
        if self.kind == "O" and how == "drop_in_place" and not self.teardown:
            self.bad(cx, "freed", "an overflow bucket is freed at once although lock-free readers may hold it")
        if not self.teardown and not self.killing:
            cur = self.cur(q, "occ", X)
            f = self.fact(q, cur)
            if not (cur == ("i", 0) or f == ("=", 0)):
                self.bad(cx, "freed", "an overflow bucket is detached and freed without having checked that it is empty")
        elif self.killing and self.kind == "O":
            f = self.fact(q, ("call", "needs", (), 0))
            if f is None or truth_of(f) is not False:
                self.bad(cx, "freed", "an overflow bucket is freed while removed entries in it may still be read")
        if self.ptr is not None and X == ("fld", self.R.ptrlink, self.ptr):
            q = q | {("freedlink", X)}
        return [("ret", q - {("detached", X)}, ("i", 1))]

    def islink(self, X):
        return isinstance(X, tuple) and not self.direct(X)

    def lru(self, cx, short, args, q):
        i = args[2] if len(args) > 2 else None
        X = args[0][2] if args[0] is not None and args[0][0] == "fld" else None
        if self.kind != "C":
            return [("ret", q, NONE)]
        if short == "evict":
            v = ("victim", 0)
            return [("ret", q | {("lru", X, v)}, some(("agg", "tuple", None, (v, ("newtail", v)), None))),
                    ("ret", q | {("unlinked", X, None)}, NONE)]
        if short == "remove":
            if i is None:
                self.bad(cx, "lru", "the slot taken out of the list of recently used ones is not known")
            return [("ret", q | {("lru", X, i)}, some(("newtail", i))), ("ret", q | {("unlinked", X, i)}, NONE)]
        return [("ret", q, some(("newtail", "promoted"))), ("ret", q, NONE)]

    def compare(self, cx, args, short, q):
        for x in args:
            v = x
            while isinstance(v, tuple) and v[0] == "fld" and v[1] in (0, "0"):
                v = v[2]
            s = self.R.slot(v)
            if s is not None:
                D, i = s
                if i is not None and i[0] == "tz":
                    m = i[1]
                    b = plain(base(m))
                    X = self.owner(q, D)
                    if b != (("live", X) if self.kind == "O" else ("v", "occ", X)):
                        self.bad(cx, "unseen", "a search compares slots of a bucket that are not its present ones"
                                 + (" (occupied, not removed, read in that order with acquire ordering)" if self.kind == "O" else ""))
                    if not self.nonempty(q, m):
                        self.bad(cx, "empty", "a search looks at a slot without knowing that there is a candidate")
                else:
                    self.bad(cx, "unseen", "a search compares a slot that is not known to hold an entry")
                r = ("equiv", D, i)
                return [("ret", q, r if short != "ne" else ("not", r)), ("unwind", q, None)]
        return None

    # ------------------------------------------------------------ partial hashes, and the pointer to an entry that was passed
    wants_store = wants_read = True

    def on_read(self, v, q):
        if self.ptr is not None and v[0] == "fld" and v[2] == self.ptr:
            return self.field(q, v[1])
        return v

    def field(self, q, n):
        for t in q:
            if t[0] == "cell" and t[1] == "ptr" and t[2] == n:
                return t[3]
        return ("fld", n, self.ptr)

    def on_store(self, cx, target, v, q):
        if self.ptr is not None and target is not None and contains(target, self.ptr):
            if target[0] == "fld" and target[2] == self.ptr:
                return self.setcell(q, "ptr", target[1], v if v is not None else ("?",))
            if target == self.ptr:
                self.bad(cx, "pointer", "a pointer to an entry is overwritten as a whole")
        c = self.R.cell(target)
        if c and isinstance(c[0], tuple) and c[0][0] == "ph":
            i, X = c[0][1], c[1]
            return q | {("ph", X, i, v)} if i is not None else q
        return q

    # ------------------------------------------------------------ the end of an operation
    def finish(self, fail, kind, q, val):
        q = self.settle(q)
        if kind == "unwind":
            # A destructor that panics: what it was given is gone, and must not be reachable any more.
            if self.get(q, "dr") and not self.get(q, "clr"):
                fail("unwind", "a destructor may panic while its entry is still marked as present")
            return
        names = {"w": "an entry is written to a slot that is not marked as occupied", "set": "a slot is marked as occupied without an entry "
                 "and its partial hash having been written to it", "rd": "an entry is moved out of a slot that stays marked as occupied",
                 "dr": "an entry is dropped in a slot that stays marked as occupied",
                 "clr": "a slot ceases to be occupied without its entry having been moved out or dropped",
                 "occmask": "slots cease to be occupied that stay marked as removed", "owed": OWED,
                 "lru": "an entry is taken out of the list of recently used ones without its tail being updated",
                 "detached": "an overflow bucket is detached and neither freed nor attached elsewhere"}
        for t in q:
            if t[0] in names and not (t[0] == "owed" and self.get(q, "equal")):
                fail("half", names[t[0]])
        for t in q:
            if t[0] == "freeslot" and not {("unlinked", t[1], t[2]), ("unlinked", t[1], None)} & q:
                fail("lru", "a slot ceases to be occupied while it stays in the list of recently used ones")
        nodrop = self.nodrop(q)
        for t in q:
            if t[0] == "gone" and not nodrop and not self.all_dropped(q, t[1], t[2]):
                fail("leak", "slots of removed entries are given up without every entry having been dropped")
            elif t[0] == "headed" and self.truthnull(q, t[2]) is not True and ("prevset", t[2], t[1]) not in q:
                fail("chain", "the overflow bucket behind a new one does not point back to it")
            elif t[0] == "reattached" and not any(p[0] == "prevset" and p[1] == t[1] and (
                    self.truthnull(q, p[2]) is True if self.direct(t[2]) else p[2] == t[2]) for p in q):
                fail("chain", "an overflow bucket that is attached elsewhere does not point back to where it is attached")
        if self.teardown:
            X = self.buckets[0] if self.buckets else ("arg", 0)
            if not nodrop and not self.all_dropped(q, X, ("v", "occ", X)):
                fail("leak", "a bucket is destroyed without every entry in it having been dropped")
            if self.buckets and self.truthnull(q, self.cur(q, "link", X)) is not True:
                fail("leak", "a bucket is destroyed without its overflow buckets having been freed")
            return
        lens = {}
        for t in q:
            if t[0] == "cell" and t[1] == "len":
                lens[t[2]] = t[3][2] if t[3][0] == "off" else 0
        live = {t[1]: t[2] for t in q if t[0] == "live"}
        rest = [lens.get(X, 0) - live.get(X, 0) for X in set(lens) | {k for k in live if not isinstance(k, str)}]
        if sum(n for n in rest if n > 0) != live.get("added", 0) or sum(n for n in rest if n < 0) != live.get("removed", 0):
            fail("len", "the number of entries a bucket reports changes by %s although the number of live ones changes by %s" % (
                sum(lens.values()), sum(live.values())))
        if self.iterate:
            self.visited(fail, q, val)
            return
        if self.ptr is not None:
            self.kept(fail, q)
        placed = [t for t in q if t[0] == "placed"]
        if val is not None and val[0] == "agg" and val[1] == MOD + "EntryPtr":
            self.pointer(fail, q, val, placed)
        elif self.lookup:
            if val is None or val[0] != "agg" or val[1] != OPTION:
                fail("found", "what a search returns is not understood")
            elif val[2] == 1:
                s = self.R.slot(val[3][0])
                if s is None or ("equal",) + s not in q:
                    fail("found", "a search returns an entry whose key was not found to equal the one searched for")
                self.n["found"].add(self.root.n)
            else:
                self.absent(fail, q)

    def pointer(self, fail, q, val, placed):
        link, i = val[3][0], val[3][1]

        def at(X):
            return link == X if not self.direct(X) else link == ("nil",)
        if placed:
            if not any(t[2] == i and at(t[1]) for t in placed):
                fail("found", "the returned pointer does not point to the slot the entry was put in")
        elif self.lookup:
            if i == ("i", 32) and link == ("nil",):
                self.absent(fail, q)
            else:
                eq = [t for t in q if t[0] == "equal" and t[2] == i]
                if not any(at(self.owner(q, t[1])) for t in eq):
                    fail("found", "the pointer a search returns does not point to the slot whose key was found to equal the one searched for")
                self.n["found"].add(self.root.n)

    def absent(self, fail, q):
        self.n["absent"].add(self.root.n)
        X = self.buckets[0]
        if self.fact(q, ("v", "len", X)) == ("=", 0):
            return
        if not self.done_with(q, X):
            fail("absent", "a search gives up before every candidate in the bucket has been compared")
            return
        # The last bucket of the chain was reached.
        ends = [t for t in q if t[0] == "cell" and t[1] == "link" and (t[2] == X or t[2][0] == "next") and self.truthnull(q, t[3]) is True]
        if not any(self.done_with(q, t[2]) for t in ends):
            fail("absent", "a search gives up before the last overflow bucket has been searched")

    def nodrop(self, q):
        return truth_of(self.fact(q, ("call", "needs", (), 0)) or ("!", (0,))) is False

    def truthnull(self, q, p):
        if p == ("nil",):
            return True
        f = self.fact(q, ("null", p))
        return truth_of(f) if f else None

    def all_dropped(self, q, X, m):
        if ("exh", plain(m)) in q and not self.get(q, "turn"):
            return True
        b = plain(base(m))
        return {t[2][1] for t in q if t[0] == "did" and t[1] == b} >= set(range(self.nslots(X)))


OWED = "a slot is passed over without its entry having been dropped, or compared"
OPTION = "std::option::Option"
RESULT = "std::result::Result"
SLOTFN = re.compile(r"^(\*(mut|const) T|std::ptr|std::ptr::NonNull)::(write|read|drop_in_place)$")


def roots(F, R):
    """id -> what kind of operation; the functions of the module that are called from outside, and destructors."""
    inside = {f.id for f in F.fns.values() if MOD in f.n}
    callers = {}
    for g in F.fns.values():
        for i, c in g.calls():
            if c.get("id", -1) in inside and g.id not in inside:
                callers.setdefault(c["id"], set()).add(g.n)
    touch, equal, poison = set(), set(), set()
    for f in F.fns.values():
        if f.id not in inside:
            continue
        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "raw") and any(
                        isinstance(e, list) and e[0] == "f" and e[2] in (R.occ, R.rem) and len(e) > 3 and e[3] == R.meta for e in s[2][2][1:]):
                    touch.add(f.id)
        for i, c in f.calls():
            if c["n"] == "equivalent::Equivalent::equivalent":
                equal.add(f.id)
            elif cname(c) == "saa::Lock::poison_lock":
                poison.add(f.id)
    touch, equal = F.callers_closure(touch), F.callers_closure(equal)
    out = {}
    for i in inside:
        f = F.fns[i]
        dropimpl = f.n.endswith("std::ops::Drop>::drop")
        if "Writer" in f.n and dropimpl or i not in touch and i not in poison or f.cor:
            continue
        if dropimpl and f.n.startswith("<" + R.link):
            out[i] = {"teardown"}
        elif i in callers:
            out[i] = {"iterate"} if f.n.startswith(MOD + "EntryPtr") else set()
            if any(re.match("&mut %sEntryPtr" % MOD, F.ts(f.locals[k + 1][0])) for k in range(f.argc)) and not out[i]:
                out[i] = {"pointer"}
            if i in equal:
                out[i].add("lookup")
            if i in poison:
                out[i].add("killing")
            if all(n.endswith("std::ops::Drop>::drop") for n in callers[i]):
                out[i].add("teardown")
    return out


def kind_of(f):
    for a in f.ga:
        if isinstance(a, str) and a.startswith("const '"):
            return a[7]
    return "S" if not any(isinstance(a, str) for a in f.ga) else None


def one(job):
    F, rs, kind, fid = JOBS[0], JOBS[1], *job
    f = F.fns[fid]
    R = Slots(F, rs, kind)
    E = Engine(F, R, LIMIT)
    R.setup(f)
    bad = {}
    try:
        outs = E.run_root(fid, frozenset())
    except facts.ToolError as e:
        return job, {}, R.n, 0, E.nstates, E.visited_fns, str(e)
    for k, q, v in outs:
        R.finish(lambda key, msg: bad.setdefault((key, f.n, kind), (msg, f.sp, [f.n])), k, q, v)
    for k, b in E.reports.items():
        bad.setdefault((k.split(":")[0], b["fn"], kind), (b["msg"], b["span"], b["chain"]))
    return job, bad, R.n, len(outs), E.nstates, E.visited_fns, None


LIMIT = 3000000
JOBS = None


def explore(F, want):
    """Explores the operations of the module of which want(kind, flags) is true, in parallel."""
    global JOBS
    r0 = Roles(F)
    rs = roots(F, r0)
    jobs = [(kind_of(F.fns[i]), i) for i in sorted(rs)]
    jobs = [(k, i) for k, i in jobs if k and want(k, rs[i])]
    # The longest first.
    jobs.sort(key=lambda x: (not {"insert", "extract_from"} & {F.fns[x[1]].n.rsplit("::", 1)[-1]}, -len(F.fns[x[1]].bb), x))
    JOBS = F, rs
    bad, n, done, states, seen = {}, {}, [], 0, set()
    with multiprocessing.get_context("fork").Pool(8) as p:
        for (kind, fid), b, nn, k, ns, vis, err in p.imap_unordered(one, jobs):
            if err:
                raise facts.ToolError("%s: %s" % (F.fns[fid].n, err))
            for key, x in b.items():
                bad.setdefault(key + (frozenset(rs[fid]),), x)
            for name, x in nn.items():
                n.setdefault(name, set()).update((kind,) + (y if isinstance(y, tuple) else (y,)) for y in x)
            states += ns
            seen |= vis
            done.append((fid, kind, rs[fid], k))
    return bad, n, done, states, seen


ISSUES = {"C18": lambda key, kind, fl: kind == "O" and key in ("epoch", "order", "early", "gap", "revived", "mask", "freed"),
          "C16": lambda key, kind, fl: "iterate" in fl or key in ("visited", "pointer"),
          "C15": lambda key, kind, fl: "lookup" in fl and key in ("skipped", "unseen", "empty", "found", "absent", "unknown")}


def part(c, pid, want, floors):
    F = facts.load()
    bad, n, done, states, seen = explore(F, want)
    for (key, fn, kind, fl), (msg, where, chain) in sorted(bad.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
        to = next((p for p, is_of in ISSUES.items() if is_of(key, kind, fl)), "C14")
        if to == pid:
            c.fail("%s:%s:%s" % (key, kind, fn), msg, where, chain)
    for what, k, least in floors:
        c.floor(what, len(n[k]), least)
        c.count(len(n[k]))
    c.analysed["operations explored"] = len(done)
    c.analysed["outcomes compared with the rule"] = sum(k for f, kind, fl, k in done)
    c.analysed["functions visited"] = len(seen)
    c.analysed["abstract states"] = states
    c.count(sum(k for f, kind, fl, k in done))
    for fid, kind, fl, k in sorted(done, key=lambda x: F.fns[x[0]].n)[:24]:
        c.sample({"operation": F.fns[fid].n, "of": {"S": "maps and sets", "O": "HashIndex", "C": "HashCache"}[kind], "outcomes": k})
    return F, n, done
