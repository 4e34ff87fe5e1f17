"""The slots of a leaf of the tree: what its metadata says and what its entries are, on every path of every leaf operation.

One slot (the focus) is followed through an operation, together with the slot that is being filled or emptied; the other slots are only
told apart by their index.  The number of slots is taken to be small; their number of bits, the flags and the code are the real ones.

Values: ("M", g) metadata as loaded (g: which load, cyclic); ("U", g, ((slot, rank), ..), frozen, retired) metadata built from it;
("S", md, n) md >> n; ("R", g, i) the rank of slot i in M g; ("R1", r) r + 1; ("SH", r, n) r << n; ("F", md, bits) flag bits of md;
("mz", md, n) md >> n is 0; ("rc", a, b, rel) a `rel` b, rel a subset of "<=>"; ("ord", i, flip) what comparing slot i with the key gave.
"""
import multiprocessing
import os

import facts
from engine import NONE, UNIT, Engine, Rule, contains, some
from facts import cname

MOD = "tree_index::leaf::"
W = (1 << 64) - 1
FRZ, RET = 1 << 62, 1 << 63
OPS = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": "=>", "Eq": "=", "Ne": "<>"}
INV = {"<": ">", ">": "<", "=": "="}
ORDER = "std::sync::atomic::Ordering"


def inv(s):
    return "".join(sorted(INV[x] for x in s))


def both(a, b):
    return "".join(x for x in a if x in b)


COMP = {("<", "<"): "<", ("<", "="): "<", ("=", "<"): "<", ("=", "="): "=", (">", ">"): ">", (">", "="): ">", ("=", ">"): ">"}


def comp(a, b):
    out = set()
    for x in a:
        for y in b:
            t = COMP.get((x, y))
            if t is None:
                return "<=>"
            out.add(t)
    return "".join(sorted(out))


class Leaf(Rule):
    name = "leaf"
    indexed = True
    registers = True
    wants_store = True

    def __init__(self, F, N, s, root):
        super().__init__(F)
        self.N, self.s, self.root = N, s, root
        self.start = N
        self.n = {}
        self.real = None

    def events(self):
        return {f.id for f in self.F.fns.values() if MOD in f.n and "Dimension as std" not in f.n}

    def user_unwinds(self, cx, callee):
        return True

    def tell(self, kind, x):
        self.n.setdefault(kind, set()).add(x)

    def bad(self, cx, key, msg):
        cx.E.report(cx, "%s:%s" % (key, cx.f.n), msg)

    # ------------------------------------------------------------ the state
    @staticmethod
    def get(q, k, d=None):
        for t in q:
            if t[0] == k:
                return t[1]
        return d

    @staticmethod
    def put(q, **kw):
        d = dict(q)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return frozenset(d.items())

    def fresh(self, cx, q):
        """Another load of the metadata: (value, q, facts)."""
        d = dict(q)
        g = (d.get("g", 2) + 1) % 3
        keep = d.get("z") is False and d.get("x") is False or d.get("cmp")
        for k in ("z", "x", "fz", "rt", "acc", "mx", "mn", "cur0", "L", "G", "Lbad", "Gbad", "live", "sf", "cf"):
            d.pop(k, None)
        if keep:
            d["z"] = False
        d["g"] = g
        fa = {k: v for k, v in cx.facts.items() if not (isinstance(k, tuple) and self.mentions(k, g))}
        return ("M", g), frozenset(d.items()), fa

    def mentions(self, k, g):
        if k and k[0] in ("M", "R", "U") and k[1] == g:
            return True
        return any(isinstance(x, tuple) and self.mentions(x, g) for x in k)

    # ------------------------------------------------------------ ranks and what is known about them
    def rank(self, q, md, i):
        if not 0 <= i < self.N:
            return None, q
        if md[0] == "U":
            for j, v in md[2]:
                if j == i:
                    return v, q
            g = md[1]
        else:
            g = md[1]
        if self.get(q, "own") == i:
            return ("i", 15), q
        if i != self.s:
            cf = self.get(q, "cf")
            if cf is None or cf[0] != i or cf[1] != g:
                q = self.put(q, cf=(i, g, ()))
        return ("R", g, i), q

    def roles(self, q):
        """The slots that are known to be in use and that others are compared with."""
        return [self.get(q, k) for k in ("L", "G", "mx", "mn", "cur0")]

    def cursor(self, q):
        return ("i", 0) if self.start == self.N else ("R", self.get(q, "g"), self.start)

    def known(self, q, A):
        """What is recorded about the rank A: ((B, rel), ..)"""
        if A[0] != "R" or A[1] != self.get(q, "g"):
            return ()
        if A[2] == self.s:
            return self.get(q, "sf", ())
        cf = self.get(q, "cf")
        return cf[2] if cf and cf[0] == A[2] and cf[1] == A[1] else ()

    def bounds(self, q, A):
        if A[0] == "i":
            return A[1], A[1]
        if A[0] == "R1":
            lo, hi = self.bounds(q, A[1])
            return lo + 1, hi + 1
        lo, hi = 0, 15
        if A[1] == self.get(q, "g"):
            i = A[2]
            if i in (self.get(q, "L"), self.get(q, "G"), self.get(q, "cur0"), self.get(q, "mx"), self.get(q, "mn")):
                lo, hi = 1, self.N
            if i == self.s:
                z, x = self.get(q, "z"), self.get(q, "x")
                if z:
                    hi = 0
                elif z is False:
                    lo = max(lo, 1)
                if x:
                    lo = 15
                elif x is False:
                    hi = min(hi, self.N)
            for B, r in self.known(q, A):
                if B[0] == "i":
                    n = B[1]
                    if "<" not in r:
                        lo = max(lo, n if "=" in r else n + 1)
                    if ">" not in r:
                        hi = min(hi, n if "=" in r else n - 1)
                elif B[0] == "R1" and B[1][0] == "R" and B[1][2] != i and B[1][2] in self.roles(q):
                    if "<" not in r:
                        lo = max(lo, 2 if "=" in r else 3)
                elif B[0] == "R" and B[2] in self.roles(q):
                    # Slots that were compared with the key are in use.
                    if "<" not in r:
                        lo = max(lo, 1 if "=" in r else 2)
                    if ">" not in r:
                        hi = min(hi, self.N if "=" in r else self.N - 1)
        if lo > self.N:
            lo = 15
        if hi < 15:
            hi = min(hi, self.N)
        return lo, hi

    def rel(self, q, A, B, deep=2):
        if A == B:
            return "="
        la, ha = self.bounds(q, A)
        lb, hb = self.bounds(q, B)
        r = "<=>"
        if ha < lb:
            return "<"
        if la > hb:
            return ">"
        if la == ha == lb == hb:
            return "="
        if ha <= lb:
            r = both(r, "<=")
        if la >= hb:
            r = both(r, "=>")
        if la == ha and lb == hb:
            r = both(r, "=")
        if A[0] == "R" and B[0] == "R" and A[1] == B[1] and A[2] != B[2] and (1 <= la and ha <= self.N or 1 <= lb and hb <= self.N):
            r = both(r, "<>")
        if A[0] == "R" and B[0] == "R" and A[1] == B[1] == self.get(q, "g"):
            L, G = self.get(q, "L"), self.get(q, "G")
            if L is not None and G is not None and L != G:
                if (A[2], B[2]) == (L, G):
                    r = both(r, "<")
                elif (A[2], B[2]) == (G, L):
                    r = both(r, ">")
        if B[0] == "R1" and A[0] != "R1":
            t = self.rel(q, A, B[1], deep)
            r = both(r, "<" if ">" not in t else "=>" if t == ">" else "<=>")
        elif A[0] == "R1" and B[0] != "R1":
            t = inv(self.rel(q, B, A, deep))
            r = both(r, t)
        for X, Y, up in ((A, B, False), (B, A, True)):
            for Z, t in self.known(q, X):
                if Z == ("R1", Y):
                    # X < Y + 1 is X <= Y.
                    t = "<=" if "=" not in t and ">" not in t else ">" if "<" not in t else "<=>"
                    r = both(r, inv(t) if up else t)
        for Y, t in self.known(q, A):
            if Y == B:
                r = both(r, t)
            elif deep:
                r = both(r, comp(t, self.rel(q, Y, B, deep - 1)))
        for Y, t in self.known(q, B):
            if Y == A:
                r = both(r, inv(t))
            elif deep:
                r = both(r, comp(self.rel(q, A, Y, deep - 1), inv(t)))
        return r

    def learn(self, q, A, B, r):
        """q, knowing that A r B; None: impossible."""
        r = both(self.rel(q, A, B), r)
        if not r:
            return None
        g = self.get(q, "g")
        for X, Y, t in ((A, B, r), (B, A, inv(r))):
            if X[0] != "R" or X[1] != g or t == "<=>":
                continue
            if X[2] == self.s:
                q = self.note(q, Y, t)
                if q is None:
                    return None
            else:
                cf = self.get(q, "cf")
                if cf and cf[0] == X[2] and cf[1] == g:
                    q = self.put(q, cf=(cf[0], g, tuple(x for x in cf[2] if x[0] != Y) + ((Y, t),)))
        for X, Y in ((A, B), (B, A)):
            # What this tells about the slot that is followed.
            S = ("R", g, self.s)
            if X[0] == "R" and X[1] == g and X[2] != self.s and Y != S and S != X:
                t = self.rel(q, S, X)
                if t in ("<", "<=", ">", "=>", "="):
                    q = self.note(q, X, t)
                    if q is None:
                        return None
                lo, hi = self.bounds(q, X)
                if lo >= 1 and hi <= self.N:
                    q = self.put(q, live=X[2])
        role = {"max_entry": "mx", "proceed": "mn"}.get(self.root)
        if role and self.start != W:
            for X in (A, B):
                if X[0] == "R" and X[1] == g:
                    # The greatest so far, or the least so far of those behind the cursor.
                    m = self.get(q, role)
                    lo, hi = self.bounds(q, X)
                    if not (lo >= 1 and hi <= self.N and m != X[2]) or role == "mn" and self.rel(q, X, self.cursor(q)) != ">":
                        continue
                    if m is None or self.rel(q, X, ("R", g, m)) == (">" if role == "mx" else "<"):
                        t = self.rel(q, ("R", g, self.s), X)
                        q = self.put(q, **{role: X[2]})
                        if X[2] != self.s and t != "<=>":
                            q = self.note(q, X, t)
                            if q is None:
                                return None
        return q

    def account(self, q, side):
        """The focus lies on that side of the key, or holds nothing."""
        d = self.get(q, "cmp")
        if d in ("G", "E") and side == "lo":
            return None
        q = self.put(q, acc=side)
        # An entry that was less and is now behind greater ones has been removed.
        return self.note(q, ("i", 15), "=") if d == "L" and side == "hi" else q

    def note(self, q, Y, t):
        """The rank of the focus is t to Y."""
        S = ("R", self.get(q, "g"), self.s)
        sf = self.get(q, "sf", ())
        if Y[0] == "i":
            sf = tuple(x for x in sf if x[0] != Y) + ((Y, t),)
            q = self.put(q, sf=sf)
        else:
            roles = self.roles(q)
            up = "<" in t
            sf = tuple(x for x in sf if x[0] != Y and (x[0][0] == "i" or x[0][0] == "R" and x[0][2] in roles or x[0][0] == "R1" or ("<" in x[1]) != up)) + ((Y, t),)
            q = self.put(q, sf=sf)
            if Y[0] == "R" and self.get(q, "acc") is None:
                if Y[2] == roles[0] and ">" not in t:
                    q = self.account(q, "lo")
                elif Y[2] == roles[1] and "<" not in t:
                    q = self.account(q, "hi")
                if q is None:
                    return None
        lo, hi = self.bounds(q, S)
        if lo > hi:
            return None
        kw = {}
        if hi == 0:
            kw["z"] = True
        elif lo >= 1:
            kw["z"] = False
        if lo == 15:
            kw["x"] = True
        elif hi <= self.N:
            kw["x"] = False
        q = self.put(q, **kw)
        # Constants that follow from z and x are forgotten.
        z, x = self.get(q, "z"), self.get(q, "x")
        sf = tuple(y for y in self.get(q, "sf", ()) if y[0] not in (("i", 0), ("i", 15)))
        return self.put(q, sf=sf or None)

    def srank(self, q):
        return ("R", self.get(q, "g"), self.s)

    def isdead(self, q):
        lo, hi = self.bounds(q, self.srank(q))
        return hi == 0 or lo == 15

    def islive(self, q):
        lo, hi = self.bounds(q, self.srank(q))
        return lo >= 1 and hi <= self.N

    def may(self, q, *facts):
        """The focus may be in use, with a rank of which all of this is true."""
        S = self.srank(q)
        for B, r in ((("i", 0), ">"), (("i", 15), "<")) + facts:
            q = self.learn(q, S, B, r)
            if q is None:
                return False
        return True

    def side(self, q):
        """Where the focus lies: dead, less, greater, equal, or not known."""
        if self.isdead(q):
            return "dead"
        c = self.get(q, "cmp")
        if c:
            return c
        return {"lo": "L", "hi": "G"}.get(self.get(q, "acc"))

    # ------------------------------------------------------------ arithmetic
    def on_const(self, adt, vals):
        if adt and adt.startswith(MOD) and len(vals) == 2 and max(v[1] for v in vals) >= 7:
            # The array of entries has as many elements as the larger of the two says.
            k = max(v[1] for v in vals)
            vals = tuple(("i", self.N) if v[1] == k else v for v in vals)
        return super().on_const(adt, vals)

    @staticmethod
    def ismd(v):
        return v is not None and v[0] in ("M", "U")

    def update(self, q, md, i, v):
        """md with the rank of slot i replaced."""
        g, ups, fz, rt = (md[1], md[2], md[3], md[4]) if md[0] == "U" else (md[1], (), None, None)
        own = self.get(q, "own")
        ups = dict(ups)
        if i != self.s:
            for j in list(ups):
                if j != self.s and j != own and j != i:
                    ups.pop(j)
            others = [j for j in ups if j != self.s]
            if own is not None and i != own:
                return md
        ups[i] = v
        return ("U", g, tuple(sorted(ups.items())), fz, rt)

    @staticmethod
    def flags(md, fz=None, rt=None):
        if md[0] == "M":
            md = ("U", md[1], (), None, None)
        return md[:3] + (md[3] if fz is None else fz, md[4] if rt is None else rt)

    def on_un(self, op, a):
        if op == "Not" and a is not None and a[0] == "i":
            return ("i", ~a[1] & W)
        return None

    def on_binq(self, cx, op, a, b, q):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if a is None or b is None:
            return None, q
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            t = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if t is not None:
                return ("i", int(t)), q
            if op in ("Div", "Rem") and not y:
                return None, q
            if op in ("Shl", "Shr") and y > 63:
                return None, q
            t = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y, "Div": lambda: x // y, "Rem": lambda: x % y}.get(op)
            return (("i", t() & W) if t else None), q
        if op in ("BitAnd", "BitOr", "Add", "Eq", "Ne") and a[0] == "i":
            a, b = b, a
        if op in OPS:
            return self.compared(cx, op, a, b, q)
        n = b[1] if b[0] == "i" else None
        if self.ismd(a):
            return self.mdop(cx, op, a, b, n, q)
        if a[0] == "S":
            if op == "Shr" and n is not None:
                return ("S", a[1], a[2] + n), q
            if (op == "Rem" and n == 16 or op == "BitAnd" and n == 15) and a[2] % 4 == 0:
                return self.rank(q, a[1], a[2] // 4)
            return None, q
        if a[0] in ("R", "R1") and n is not None:
            if op == "Add" and n == 1 and a[0] == "R":
                return ("R1", a), q
            if op == "Sub" and n == 1 and a[0] == "R1":
                return a[1], q
            if op == "Shl":
                return ("SH", a, n), q
            if n == 0 and op in ("Add", "Sub", "BitOr"):
                return a, q
        return None, q

    def mdop(self, cx, op, a, b, n, q):
        if op == "Shr" and n is not None:
            return ("S", a, n), q
        if (op == "Rem" and n == 16) or (op == "BitAnd" and n == 15):
            return self.rank(q, a, 0)
        if op == "BitAnd" and n is not None:
            if n in (FRZ, RET, FRZ | RET):
                return ("F", a, n), q
            if n and n % 15 == 0 and n < FRZ:
                i = (n.bit_length() - 1) // 4
                if n == 15 << 4 * i:
                    r, q = self.rank(q, a, i)
                    return (("SH", r, 4 * i) if r and r[0] != "i" else ("i", r[1] << 4 * i) if r else None), q
            v = a
            off = ~n & W
            for i in range(self.N):
                m = off >> 4 * i & 15
                if m == 15:
                    v = self.update(q, v, i, ("i", 0))
                elif m:
                    return None, q
            if off >> 4 * self.N & (FRZ - 1 >> 4 * self.N):
                pass
            if off & FRZ:
                v = self.flags(v, fz=0)
            if off & RET:
                v = self.flags(v, rt=0)
            return v, q
        if op == "BitOr" or op == "Add":
            if n is not None:
                v = a
                for i in range(self.N):
                    m = n >> 4 * i & 15
                    if m:
                        old, q = self.rank(q, v, i)
                        v = self.update(q, v, i, ("i", m) if m == 15 and op == "BitOr" or self.iszero(q, old, i) else ("?",))
                if n & FRZ:
                    v = self.flags(v, fz=1)
                if n & RET:
                    v = self.flags(v, rt=1)
                return v, q
            if b[0] == "SH" and b[2] % 4 == 0 and b[2] // 4 < self.N:
                i = b[2] // 4
                old, q = self.rank(q, a, i)
                return self.update(q, a, i, b[1] if self.iszero(q, old, i) else ("?",)), q
            if b[0] in ("R", "R1"):
                old, q = self.rank(q, a, 0)
                return self.update(q, a, 0, b if self.iszero(q, old, 0) else ("?",)), q
            if self.ismd(b) and a == b:
                return a, q
        return None, q

    def iszero(self, q, v, i):
        own = self.get(q, "own")
        if i != self.s and own is not None and i != own:
            return True             # not followed
        if v is None:
            return False
        return v == ("i", 0) or v[0] == "R" and self.bounds(q, v)[1] == 0

    def compared(self, cx, op, a, b, q):
        if a[0] == "F" and b[0] == "i":
            if b[1] == 0 or b[1] == a[2]:
                v = ("fl", a[1], a[2])
                k = self.flag(q, v)
                if a[2] == FRZ | RET and b[1]:
                    return None, q
                neg = (op == "Eq") == (b[1] == 0)
                if op not in ("Eq", "Ne", "Gt") or op == "Gt" and b[1]:
                    return None, q
                if op == "Gt":
                    neg = False
                if k is not None:
                    return ("i", int(k != neg)), q
                return (("not", v) if neg else v), q
            return None, q
        if (self.ismd(a) or a[0] == "S") and b == ("i", 0):
            md, k = (a, 0) if a[0] != "S" else (a[1], a[2])
            if op == "Gt":
                op = "Ne"
            if op in ("Eq", "Ne"):
                v = ("mz", md, k)
                return (v if op == "Eq" else ("not", v)), q
            return None, q
        if a[0] == "SH" and b == ("i", 0):
            a = a[1]
        if a[0] in ("R", "R1", "i") and b[0] in ("R", "R1", "i"):
            r = self.rel(q, a, b)
            if not r:
                # What is known contradicts itself: this path is impossible.
                return ("i", 0), self.put(q, void=True)
            t = both(r, OPS[op])
            if not t or t == r:
                if self.srank(q) in (a, b):
                    # What this follows from may be forgotten later.
                    q2 = self.learn(q, a, b, r)
                    q = self.put(q, void=True) if q2 is None else q2
                return ("i", int(bool(t))), q
            return ("rc", a, b, OPS[op]), q
        if a[0] == "ord" and b[0] == "i":
            return None, q
        return None, q

    def flag(self, q, v):
        """Whether a flag is known to be set."""
        md, bits = v[1], v[2]
        if bits == FRZ | RET:
            a, b = self.flag(q, ("fl", md, FRZ)), self.flag(q, ("fl", md, RET))
            return True if a or b else False if a is False and b is False else None
        if md[0] == "U":
            o = md[3] if bits == FRZ else md[4]
            if o is not None:
                return bool(o)
        if md[1] != self.get(q, "g"):
            return None
        return self.get(q, "fz" if bits == FRZ else "rt")

    def on_branch(self, cx, v, fact, q):
        if self.get(q, "void"):
            return None
        if v[0] == "disc" and v[1] is not None and v[1][0] == "ord":
            return self.ordered(cx, v[1], fact, q)
        yes = None
        if fact[0] == "=":
            yes = fact[1] != 0
        elif 0 in fact[1]:
            yes = True
        if yes is None:
            return q
        if v[0] == "rc":
            return self.learn(q, v[1], v[2], v[3] if yes else "".join(x for x in "<=>" if x not in v[3]))
        if v[0] == "fl":
            k = self.flag(q, v)
            if k is not None:
                return q if k == yes else None
            if v[1][1] != self.get(q, "g"):
                return q
            if v[2] == FRZ:
                return self.put(q, fz=yes)
            if v[2] == RET:
                return self.put(q, rt=yes)
            return self.put(q, fz=False, rt=False) if not yes else q
        if v[0] == "mz":
            return self.nothing_left(v[1], v[2], q) if yes else q
        if v[0] == "R":
            return self.learn(q, v, ("i", 0), "<>" if yes else "=")
        if v[0] == "cond":
            return self.put(q, cond=(v[1], yes))
        if v[0] == "inr" and v[1] == self.s:
            return self.put(q, inr=yes)
        if v[0] == "needs" and not yes:
            return self.put(q, nodrop=True)
        return q

    def nothing_left(self, md, k, q):
        """md >> k is 0."""
        g = self.get(q, "g")
        for i in range(self.N):
            if 4 * i >= k:
                r, _ = self.rank(q, md, i)
                if r is None or r[0] == "i" and r[1]:
                    return None
                if r[0] == "R" and r[1] == g and i == self.s:
                    q = self.note(q, ("i", 0), "=")
                    if q is None:
                        return None
                elif r[0] == "R" and r[1] == g and self.bounds(q, r)[0] > 0:
                    return None
        if md[0] == "M" and md[1] == g:
            for b, n in ((FRZ, "fz"), (RET, "rt")):
                if self.get(q, n):
                    return None
                q = self.put(q, **{n: False})
        return q

    def ordered(self, cx, o, fact, q):
        i, flip = o[1], o[2]
        if fact[0] != "=":
            left = [k for k in (255, 0, 1, -1) if k not in fact[1] and not (k == 255 and -1 in fact[1]) and not (k == -1 and 255 in fact[1])]
            left = {255 if k == -1 else k for k in left}
            if len(left) != 1:
                return q
            k, = left
        else:
            k = fact[1]
        d = {255: "L", -1: "L", 0: "E", 1: "G"}.get(k)
        if flip:
            d = {"L": "G", "G": "L", "E": "E"}[d]
        return self.compare(cx, i, d, q)

    def compare(self, cx, i, d, q):
        """Slot i compares d with the key."""
        g = self.get(q, "g")
        R = ("R", g, i)
        if i == self.s:
            old = self.get(q, "cmp")
            if old and old != d:
                return None
            q = self.put(q, cmp=d)
            side = {"lo": "L", "hi": "G"}.get(self.get(q, "acc"))
            if side and side != d:
                return None
        kw = {}
        if d == "E":
            kw["eq"] = i
        if d == "L":
            L = self.get(q, "L")
            if L is not None and L != i and self.rel(q, R, ("R", g, L)) != ">":
                kw["Lbad"] = True
            kw["L"] = i
        else:
            G = self.get(q, "G")
            if G is not None and G != i and self.rel(q, R, ("R", g, G)) != "<":
                kw["Gbad"] = True
            kw["G"] = i
        q = self.put(q, **kw)
        if i != self.s and self.get(q, "acc") is None:
            r = self.rel(q, ("R", g, self.s), R)
            if d == "L" and ">" not in r:
                q = self.account(q, "lo")
            elif d != "L" and "<" not in r:
                q = self.account(q, "hi")
        self.tell("compared", (cx.f.n, cx.bb))
        return q

    # ------------------------------------------------------------ what is done to the leaf
    def elem(self, v):
        """(part, index) of a reference to the key (0) or value (1) of a slot."""
        if v is not None and v[0] == "elem" and len(v) == 3 and v[1] is not None and v[1][0] == "fld" and v[1][2] is not None \
                and v[1][2][0] == "fld" and v[1][2][1] == self.F.leaf_entries and str(v[1][1]) in "01":
            return int(v[1][1]), (v[2][1] if v[2] is not None and v[2][0] == "i" else None)
        return None

    def meta(self, v):
        return v is not None and v[0] == "fld" and v[1] == self.F.leaf_meta

    def on_call(self, cx, c, args, q):
        name = cname(c)
        short = name.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        if name.startswith("std::sync::atomic::Atomic::") and self.meta(a0):
            return self.atomic(cx, short, args, q)
        if "MaybeUninit::" in name and self.elem(a0):
            part, i = self.elem(a0)
            if short in ("as_ptr", "assume_init_ref"):
                return [("ret", self.look(cx, i, q), a0)]
            if short in ("as_mut_ptr",):
                return [("ret", q, a0)]
            if short == "write":
                return [("ret", self.write(cx, part, i, q), a0)]
            if short == "assume_init_read":
                return [("ret", self.take(cx, part, i, q), a0)]
            if short == "assume_init_drop":
                return [("ret", self.take(cx, part, i, q), UNIT), ("unwind", self.take(cx, part, i, q), None)]
            return None
        if self.elem(a0) and (name.startswith(("*mut T::", "*const T::", "std::ptr::"))):
            part, i = self.elem(a0)
            if short == "write":
                return [("ret", self.write(cx, part, i, q), UNIT)]
            if short == "read":
                q2 = self.take(cx, part, i, q)
                return [("ret", q2, ("taken", part, i))]
            if short == "drop_in_place":
                q2 = self.take(cx, part, i, q)
                return [("ret", q2, UNIT), ("unwind", q2, None)]
        if short in ("compare", "cmp") and c.get("how") == "unresolved" and len(args) > 1:
            for k in (1, 0):
                e = self.elem(args[k])
                if e and e[0] == 0 and e[1] is not None:
                    i = e[1]
                    if i == self.get(q, "own"):
                        # The reserved slot holds the key itself.
                        continue
                    return [("ret", q, ("ord", i, k == 1)), ("unwind", q, None)]
            return None
        if name == "std::cmp::Ordering::reverse" and a0 is not None and a0[0] == "ord":
            return [("ret", q, ("ord", a0[1], not a0[2]))]
        if name.startswith("std::cmp::Ordering::is_") and a0 is not None and a0[0] == "ord":
            return self.orders(cx, a0, {"is_eq": "E", "is_ne": "LG", "is_lt": "L", "is_le": "LE", "is_gt": "G", "is_ge": "GE"}[short], q)
        if short in ("eq", "ne") and len(args) == 2 and name.startswith(("std::cmp::", "<std::cmp::Ordering")):
            for x, y in (args, args[::-1]):
                if x is not None and x[0] == "ord" and y is not None and y[0] == "agg" and y[1].endswith("cmp::Ordering"):
                    d = "LEG"[y[2]]
                    return self.orders(cx, x, d if short == "eq" else "LEG".replace(d, ""), q)
        if short in ("max", "min") and len(args) == 2 and all(x is not None and x[0] in ("R", "R1", "i") for x in args):
            out = []
            for r, v in (("=>", args[0]), ("<", args[1])) if short == "max" else (("<=", args[0]), (">", args[1])):
                q2 = self.learn(q, args[0], args[1], r)
                if q2 is not None:
                    out.append(("ret", q2, v))
            return out
        if name == "std::ops::RangeInclusive::new" and len(args) == 2:
            return [("ret", q, ("agg", "std::ops::RangeInclusive", None, (args[0], args[1], ("i", 0)), None))]
        if short == "contains" and len(args) == 2 and a0 is not None and a0[0] == "agg" and a0[1].endswith(("::Range", "::RangeInclusive")) and \
                all(x is not None and x[0] in ("R", "R1", "i") for x in a0[3][:2] + (args[1],)):
            up = "<=" if a0[1].endswith("Inclusive") else "<"
            no = ">" if up == "<=" else "=>"
            x, (lo, hi) = args[1], a0[3][:2]
            out = []
            for rs, v in ((((lo, "<"),), 0), (((lo, "=>"), (hi, no)), 0), (((lo, "=>"), (hi, up)), 1)):
                q2 = q
                for y, r in rs:
                    q2 = self.learn(q2, x, y, r) if q2 is not None else None
                if q2 is not None:
                    out.append(("ret", q2, ("i", v)))
            return out
        if name in ("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find", "std::iter::Iterator::position") and \
                a0 is not None and a0[0] == "agg" and a0[1].endswith("::Range") and all(x is not None and x[0] == "i" for x in a0[3][:2]) and \
                a0[3][1][1] - a0[3][0][1] <= 16:
            return self.each(cx, short, a0[3][0][1], a0[3][1][1], args[1], q)
        if name in ("std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", "std::ops::Fn::call") and len(args) > 1 and args[1] is not None \
                and args[1][0] == "agg" and len(args[1][3]) == 1 and self.elem(args[1][3][0]) and \
                (c.get("how") == "unresolved" or "remove" in self.root):
            part, i = self.elem(args[1][3][0])
            if part == 1 and i is not None:
                return [("ret", q, ("cond", i)), ("unwind", q, None)]
        if self.root == "remove_range" and name == MOD + "Leaf::remove_if":
            e = self.elem(args[1])
            ok = True
            r = cx.E.run_closure(args[2], (("value", 0),), q, (), cx.f) if len(args) > 2 else None
            if not r or any(w != ("i", 1) for k, _, w in r if k == "ret"):
                ok = False
            if not ok:
                self.bad(cx, "range", "%s removes entries on another condition than that they are in the range" % cx.f.n)
            if e and e[0] == 0 and e[1] == self.s:
                if self.get(q, "inr") is not True:
                    self.bad(cx, "range", "%s removes an entry that may not be in the range" % cx.f.n)
                q = self.put(q, gone=True)
            return [("ret", q, None), ("unwind", q, None)]
        if name == MOD + "range_contains":
            e = self.elem(args[1]) if len(args) > 1 else None
            return [("ret", q, ("inr", e[1]) if e else None), ("unwind", q, None)]
        if short == "needs_drop":
            return [("ret", q, ("needs",))]
        if name == MOD + "Leaf::optimal_boundary":
            return [("ret", q, None)]
        return None

    def orders(self, cx, o, which, q):
        """Whether a comparison gave one of the directions."""
        i = o[1]
        was = self.get(q, "cmp") if i == self.s else "E" if self.get(q, "eq") == i else "L" if self.get(q, "L") == i else \
            "G" if self.get(q, "G") == i else None
        out = []
        for d in was or "LEG":
            q2 = q if was and i != self.s else self.compare(cx, i, d, q)
            if q2 is not None:
                out.append(("ret", q2, ("i", int(({"L": "G", "G": "L", "E": "E"}[d] if o[2] else d) in which))))
        return out

    def each(self, cx, short, lo, hi, f, q):
        """any, all, find and position on a range of indexes."""
        out, now = [], {q}
        stop = short != "all"
        for j in range(lo, hi):
            nxt = set()
            for q1 in now:
                for k, q2, w in cx.E.run_closure(f, (("i", j),), q1, (), cx.f) or (("ret", q1, None),):
                    if k != "ret":
                        out.append((k, q2, None))
                        continue
                    for yes in (True, False):
                        if w is not None and w[0] == "i":
                            q3 = q2 if (w[1] != 0) == yes else None
                        elif w is not None and w[0] == "not":
                            q3 = self.on_branch(cx, w[1], ("=", 0) if yes else ("!", (0,)), q2)
                        else:
                            q3 = self.on_branch(cx, w, ("!", (0,)) if yes else ("=", 0), q2) if w is not None else q2
                        if q3 is None:
                            continue
                        if yes == stop:
                            out.append(("ret", q3, some(("i", j if short == "find" else j - lo)) if short in ("find", "position") else ("i", int(yes))))
                        else:
                            nxt.add(q3)
            now = nxt
        return out + [("ret", q1, NONE if short in ("find", "position") else ("i", int(not stop))) for q1 in now]

    def look(self, cx, i, q):
        """A reference to the content of slot i is made."""
        if self.get(q, "void"):
            return q
        if i == self.s and self.get(q, "own") != i and self.get(q, "Rm") != i:
            if not self.islive(q) and not (self.root == "Drop" and self.get(q, "z") is False):
                if self.root not in ("Drop", "get"):
                    self.bad(cx, "dead", "%s looks at a slot without the metadata saying that it holds an entry" % cx.f.n)
        self.tell("looks", (cx.f.n, cx.bb))
        return q

    def write(self, cx, part, i, q):
        self.tell("writes", (cx.f.n, cx.bb))
        if self.root == "insert_unchecked":
            if i != self.s:
                self.bad(cx, "written", "%s writes another slot than it was told" % cx.f.n)
        elif i is None or self.get(q, "own") != i:
            if i == self.s or i is None:
                self.bad(cx, "written", "%s writes to a slot that it has not reserved" % cx.f.n)
            return q
        elif self.get(q, "wk" if part == 0 else "wv"):
            self.bad(cx, "written", "%s writes to a slot twice" % cx.f.n)
        return self.put(q, **{"wk" if part == 0 else "wv": True})

    def take(self, cx, part, i, q):
        self.tell("takes", (cx.f.n, cx.bb))
        k = "tk" if part == 0 else "tv"
        if self.root == "Drop":
            if i == self.s:
                if self.get(q, "z") is not False:
                    self.bad(cx, "moved", "%s drops the content of a slot that may hold nothing" % cx.f.n)
                if self.get(q, k):
                    self.bad(cx, "moved", "%s drops the content of a slot twice" % cx.f.n)
                return self.put(q, **{k: True})
            return q
        if i is None or i == self.s or i == self.get(q, "own"):
            if i is None or self.get(q, "own") != i or not self.get(q, "wk" if part == 0 else "wv"):
                self.bad(cx, "moved", "%s moves out what it has not just written to a slot it reserved" % cx.f.n)
            elif self.get(q, k):
                self.bad(cx, "moved", "%s moves the content of a slot out twice" % cx.f.n)
            return self.put(q, **{k: True})
        return q

    def mo(self, v):
        if v is not None and v[0] == "agg" and v[1] == ORDER:
            return {0: "Relaxed", 1: "Release", 2: "Acquire", 3: "AcqRel", 4: "SeqCst"}.get(v[2])
        return None

    def atomic(self, cx, short, args, q):
        E = cx.E
        if short == "load":
            v, q2, fa = self.fresh(cx, q)
            if self.mo(args[1]) == "Relaxed" and self.root not in ("validate", "insert_unchecked", "Drop"):
                q2 = self.put(q2, relaxed=True)
            return [("ret", q2, v, fa)]
        if short == "store":
            q2 = self.change(cx, None, args[1], q, self.mo(args[2]))
            return [("ret", q2, UNIT)] if q2 is not None else []
        if short.startswith("compare_exchange"):
            out = []
            q2 = self.change(cx, args[1], args[2], q, self.mo(args[3]))
            if q2 is not None:
                out.append(("ret", q2, ("agg", "std::result::Result", 0, (args[1],), 0)))
            v, q3, fa = self.fresh(cx, q)
            out.append(("ret", q3, ("agg", "std::result::Result", 1, (v,), 1), fa))
            return out
        if short in ("fetch_update", "try_update"):
            v, q2, fa = self.fresh(cx, q)
            out = []
            r = E.run_closure(args[3], (v,), q2, (), cx.f)
            for k, q3, w in r or ():
                if k != "ret":
                    out.append((k, q3, None))
                elif w is not None and w[0] == "agg" and w[2] == 0:
                    out.append(("ret", q3, ("agg", "std::result::Result", 1, (v,), 1), fa))
                elif w is not None and w[0] == "agg" and w[2] == 1:
                    q4 = self.change(cx, v, w[3][0], q3, self.mo(args[1]))
                    if q4 is not None:
                        out.append(("ret", q4, ("agg", "std::result::Result", 0, (v,), 0), fa))
                else:
                    self.bad(cx, "metadata", "%s changes the metadata in a way that is not understood" % cx.f.n)
            return out
        if short in ("fetch_and", "fetch_or"):
            v, q2, fa = self.fresh(cx, q)
            w, q2 = self.on_binq(cx, "BitAnd" if short == "fetch_and" else "BitOr", v, args[1], q2)
            q3 = self.change(cx, v, w, q2, self.mo(args[2]))
            return [("ret", q3, v, fa)] if q3 is not None else []
        self.bad(cx, "metadata", "%s of the metadata is not understood" % short)
        v, q2, fa = self.fresh(cx, q)
        return [("ret", q2, v, fa)]

    def val(self, q, md, i):
        return self.rank(q, md, i)[0]

    def change(self, cx, old, new, q, mo):
        """The metadata becomes `new` (if it was `old`); None: cannot happen."""
        fn = cx.f.n
        if self.get(q, "void"):
            return None
        self.tell("changes", (fn, cx.bb))
        if not self.ismd(new) or old is not None and (not self.ismd(old) or old[1] != new[1]):
            self.bad(cx, "metadata", "%s replaces the metadata by a value that is not made from what it was" % fn)
            return q
        if new[1] != self.get(q, "g"):
            self.bad(cx, "metadata", "%s makes the new metadata from a value that is out of date" % fn)
            return q
        if old is None:
            if self.root != "insert_unchecked":
                self.bad(cx, "metadata", "%s overwrites the metadata" % fn)
                return q
            old = ("M", new[1])
        s, own = self.s, self.get(q, "own")
        fz = [self.flag(q, ("fl", x, FRZ)) for x in (old, new)]
        rt = [self.flag(q, ("fl", x, RET)) for x in (old, new)]
        ofz, ort = (new[3], new[4]) if new[0] == "U" else (None, None)
        if old[0] == "U":
            ofz = None if ofz == old[3] else ofz
            ort = None if ort == old[4] else ort
        which = [i for i in sorted({s} | {j for j, _ in (new[2] if new[0] == "U" else ())}) if self.val(q, old, i) != self.val(q, new, i)]
        publish = own is not None and own in which and self.val(q, new, own) != ("i", 0)
        back = own is not None and own in which and self.val(q, new, own) == ("i", 0)
        kw = {}
        if ofz == 1:
            if fz[0] is not False:
                self.bad(cx, "frozen", "%s freezes a leaf that may be frozen already" % fn)
            kw["froze"] = True
        elif ofz == 0:
            if fz[0] is not True:
                self.bad(cx, "frozen", "%s thaws a leaf that may not be frozen" % fn)
            kw["thawed"] = True
        if (ofz is not None) and (which or ort is not None):
            self.bad(cx, "frozen", "%s changes slots while it freezes or thaws the leaf" % fn)
        if ort == 0:
            self.bad(cx, "retired", "%s makes a retired leaf usable again" % fn)
        if self.root == "insert_unchecked":
            n = self.val(q, new, s)
            if n != ("i", s + 1):
                self.bad(cx, "unchecked", "%s does not give the slot the rank that follows its index" % fn)
            if not (self.get(q, "wk") and self.get(q, "wv")):
                self.bad(cx, "unwritten", "%s publishes a slot before its key and value are written" % fn)
            if mo not in ("Release", "AcqRel", "SeqCst"):
                self.bad(cx, "order", "%s publishes an entry without Release ordering" % fn)
            if [i for i in which if i != s]:
                self.bad(cx, "unchecked", "%s changes another slot" % fn)
            return self.put(q, stored=True)
        removed = None
        for i in which:
            o, n = self.val(q, old, i), self.val(q, new, i)
            if i == own:
                continue
            if n == ("i", 15) and self.get(q, "eq") == i and self.get(q, "own") is None:
                removed = i
                continue
            if n == ("i", 15) and own is None and self.root == "insert":
                # Reservation.
                if i == s:
                    if not self.get(q, "z"):
                        self.bad(cx, "taken", "%s reserves a slot that may be in use" % fn)
                elif self.bounds(q, ("R", new[1], i))[1] != 0:
                    self.bad(cx, "taken", "%s reserves a slot that may be in use" % fn)
                if fz[0] is not False or rt[0] is not False:
                    self.bad(cx, "closed", "%s reserves a slot of a leaf that may be frozen or retired" % fn)
                kw["own"] = i
                self.tell("reserves", (fn, cx.bb))
                continue
            if i == s and publish and n == ("R1", o):
                continue
            if i == s:
                self.bad(cx, "slot", "%s changes the state of a slot in a way that is not allowed" % fn)
        if publish:
            self.tell("publishes", (fn, cx.bb))
            n = self.val(q, new, own)
            L = self.get(q, "L")
            if n != (("i", 1) if L is None else ("R1", ("R", new[1], L))) or self.get(q, "Lbad"):
                self.bad(cx, "rank", "%s gives the new entry a rank that does not follow that of the next smaller one" % fn)
            if not (self.get(q, "wk") and self.get(q, "wv")):
                self.bad(cx, "unwritten", "%s publishes a slot before its key and value are written" % fn)
            if self.get(q, "tk") or self.get(q, "tv"):
                self.bad(cx, "moved", "%s publishes a slot whose content was moved out" % fn)
            if mo not in ("Release", "AcqRel", "SeqCst"):
                self.bad(cx, "order", "%s publishes an entry without Release ordering" % fn)
            if self.retried(q) and (fz[0] is not False or rt[0] is not False):
                self.bad(cx, "closed", "%s publishes an entry in a leaf that may be frozen or retired" % fn)
            if s != own:
                d = self.side(q)
                o, n = self.val(q, old, s), self.val(q, new, s)
                if d is None:
                    self.bad(cx, "unseen", "%s adds an entry without having compared all keys of the leaf with it" % fn)
                elif d == "E":
                    self.bad(cx, "duplicate", "%s adds an entry for a key that it found in the leaf" % fn)
                elif d == "G" and o == n:
                    if self.get(q, "x") is not True:
                        self.bad(cx, "rank", "%s does not move an entry with a greater key behind the new one" % fn)
                elif d == "G" and not self.islive(q):
                    self.bad(cx, "rank", "%s moves a slot that may not be in use" % fn)
                elif d in ("L", "dead") and o != n:
                    self.bad(cx, "rank", "%s moves a slot that is not behind the new entry" % fn)
            kw.update(own=None, published=own)
        elif back:
            self.tell("rollbacks", (fn, cx.bb))
            if (self.get(q, "wk") and not self.get(q, "tk")) or (self.get(q, "wv") and not self.get(q, "tv")):
                self.bad(cx, "moved", "%s gives a slot back before the key and value in it were taken out" % fn)
            if s != own and s in which:
                self.bad(cx, "slot", "%s changes another slot than the one it gives back" % fn)
            kw.update(own=None, wk=None, wv=None, tk=None, tv=None, backed=True)
        elif own is not None and own in which:
            self.bad(cx, "slot", "%s neither publishes nor gives back the slot it reserved" % fn)
        if removed is not None:
            self.tell("removals", (fn, cx.bb))
            if self.get(q, "cond") != (removed, True):
                self.bad(cx, "condition", "%s removes an entry that the condition has not accepted" % fn)
            if removed == s and (self.get(q, "cmp") != "E" or not self.islive(q)):
                self.bad(cx, "removed", "%s marks a slot as removed that may not hold the entry it looked for" % fn)
            if fz[0] is not False:
                self.bad(cx, "closed", "%s removes an entry from a leaf that may be frozen" % fn)
            if ort == 1:
                if s != removed and not self.isdead(q):
                    self.bad(cx, "retired", "%s retires a leaf that may have entries left" % fn)
            elif not self.others(q, removed):
                self.bad(cx, "retired", "%s may remove the last entry of a leaf without retiring it" % fn)
            kw.update(Rm=removed, Rret=ort == 1)
        elif ort == 1:
            self.bad(cx, "retired", "%s retires a leaf without having removed its last entry" % fn)
        return self.put(q, **kw)

    def others(self, q, removed):
        """Some other slot is known to be in use."""
        return self.get(q, "live") not in (None, removed) or self.s != removed and self.islive(q)

    def retried(self, q):
        return True

    def on_store(self, cx, target, v, q):
        if self.root == "proceed" and target == ("i", self.start):
            return self.put(q, at=v[1] if v is not None and v[0] == "i" else -1)
        return q

    # ------------------------------------------------------------ how an operation may end
    def some(self, v):
        """n of Some(.. slot n ..); -1: None; None: something else"""
        if v is None or v[0] != "agg" or not v[1].endswith("::Option"):
            return None, None
        if v[2] == 0:
            return -1, ()
        return 0, v[3][0]

    def entry(self, v, both):
        """(the index of the slot an optional entry (or value) lies in; -1 for None; None if it is not understood)"""
        k, x = self.some(v)
        if k != 0:
            return k
        es = [self.elem(y) for y in (x[3] if both and x is not None and x[0] == "agg" else (x,))]
        if any(e is None for e in es) or [e[0] for e in es] != ([0, 1] if both else [1]) or len({e[1] for e in es}) != 1:
            return None
        return es[0][1]

    def finish(self, fail, kind, q, v):
        get = lambda k: self.get(q, k)
        if get("void"):
            return
        root, s, d = self.root, self.s, self.side(q)
        own = get("own")
        if own is not None:
            if kind == "unwind":
                if not (get("wk") and get("wv")):
                    fail("unwritten", "a slot stays reserved without an entry in it if the operation panics")
            else:
                fail("lost", "the operation returns with a slot still reserved")
        if kind != "ret":
            return
        if root == "insert":
            r = v[2] if v is not None and v[0] == "agg" else None
            name = self.variant.get(("InsertResult", r))
            if name == "Success":
                if get("published") is None:
                    fail("result", "Success although no entry was added")
            elif get("published") is not None:
                fail("result", "%s although the entry was added" % name)
            elif name == "Duplicate":
                if get("eq") is None:
                    fail("result", "Duplicate although no equal key was seen in the leaf")
            elif name == "Full":
                if get("z") is not False:
                    fail("result", "Full although a slot may be free")
                if d not in ("L", "G", "dead"):
                    fail("result", "Full without having compared all keys of the leaf")
            elif name == "Frozen":
                if get("fz") is not True and not get("backed"):
                    fail("result", "Frozen although the leaf may not be frozen")
            elif name == "Retired":
                if get("rt") is not True and not get("backed"):
                    fail("result", "Retired although the leaf may not be retired")
            elif name != "Retry":
                fail("result", "a result that is not understood")
        elif root == "remove_if":
            name = self.variant.get(("RemoveResult", v[2] if v is not None and v[0] == "agg" else None))
            if name in ("Success", "Retired"):
                if get("Rm") is None:
                    fail("result", "%s although no entry was removed" % name)
                elif bool(get("Rret")) != (name == "Retired"):
                    fail("result", "Retired is not returned exactly if the last entry was removed")
            elif get("Rm") is not None:
                fail("result", "%s although an entry was removed" % name)
            elif name == "Frozen":
                if get("fz") is not True:
                    fail("result", "Frozen although the leaf may not be frozen")
            elif name == "Fail":
                c = get("cond")
                if get("eq") is None:
                    if d not in ("L", "G", "dead"):
                        fail("unseen", "Fail without having compared all keys of the leaf")
                elif c and c[1] is False:
                    pass
                elif c is None:
                    fail("result", "Fail without asking the condition about the entry")
                elif get("eq") == s and not self.isdead(q):
                    fail("result", "Fail although the entry is there and the condition accepted it")
            else:
                fail("result", "a result that is not understood")
        elif root in ("search_entry", "search_value"):
            n = self.entry(v, root == "search_entry")
            if n is None:
                fail("result", "the result is not the key and value of one slot")
            elif n == -1:
                if d not in ("L", "G", "dead"):
                    fail("unseen", "None without having compared all keys of the leaf")
                elif get("eq") is not None:
                    fail("result", "None although the key was found")
            elif get("eq") != n:
                fail("result", "an entry with another key is returned")
        elif root == "min_greater_equal":
            p = v[3] if v is not None and v[0] == "agg" and len(v[3]) == 2 else (None, None)
            n = self.entry(p[0], True)
            if n is None:
                fail("result", "the result is not the key and value of one slot")
            elif p[1] != ("M", get("g")):
                fail("result", "the metadata returned is not what the entry was found with")
            elif n == -1:
                if d not in ("L", "dead"):
                    fail("unseen", "None without having compared all keys of the leaf, or with a greater one in it")
            elif get("eq") is not None:
                if n != get("eq"):
                    fail("result", "another entry than the one with the key is returned")
            elif n != get("G") or get("Gbad"):
                fail("result", "the entry returned is not the least of those that are not less")
            elif d not in ("L", "G", "dead"):
                fail("unseen", "an entry is returned without having compared all keys of the leaf")
        elif root == "Scanner::max_less":
            k, x = self.some(v)
            if k is None:
                fail("result", "the result is not understood")
            elif k == -1:
                if d not in ("G", "E", "dead"):
                    fail("unseen", "None without having compared all keys of the leaf, or with a smaller one in it")
            else:
                fs = x[3] if x is not None and x[0] == "agg" and len(x[3]) == 3 else (None,) * 3
                n = next((y[1] for y in fs if y is not None and y[0] == "i"), None)
                if n is None or n != get("L") or get("Lbad"):
                    fail("result", "the entry returned is not the greatest of those that are less")
                elif ("M", get("g")) not in fs:
                    fail("result", "the metadata returned is not what the entry was found with")
                elif d not in ("L", "G", "E", "dead"):
                    fail("unseen", "an entry is returned without having compared all keys of the leaf")
        elif root == "max_entry":
            n = self.entry(v, True)
            S = self.srank(q)
            if n is None:
                fail("result", "the result is not the key and value of one slot")
            elif n == -1:
                if not self.isdead(q):
                    fail("unseen", "None although an entry may be there")
            elif n == s:
                if not self.islive(q):
                    fail("result", "a slot without an entry is returned")
            elif self.may(q, (("R", get("g"), n), ">")):
                fail("unseen", "the entry returned may not be the one with the greatest key")
        elif root == "is_empty":
            if v is None or v[0] != "i":
                fail("result", "the result is not understood")
            elif v[1] and not self.isdead(q):
                fail("unseen", "the leaf is said to be empty although an entry may be there")
            elif not v[1] and get("live") is None and not self.islive(q):
                fail("result", "the leaf is said not to be empty although no entry was seen")
        elif root in ("freeze", "thaw"):
            did = bool(get("froze" if root == "freeze" else "thawed"))
            if v is not None and v[0] == "not":
                v = None
            if v is None or v[0] != "i" or bool(v[1]) != did:
                fail("result", "the result does not tell whether the leaf was changed")
        elif root == "insert_unchecked":
            if not get("stored"):
                fail("result", "the entry is not made reachable")
        elif root == "proceed":
            n, S, g, k = get("at"), self.srank(q), get("g"), self.start
            cur = self.cursor(q)
            if k == W:
                if n not in (None, W):
                    fail("result", "an iterator that has reached the end goes on")
            elif n == W or n is None:
                if n is None:
                    fail("result", "the iterator stays where it is")
                elif s != k and self.may(q, (cur, ">")):
                    fail("unseen", "the iteration ends although a slot with a higher rank may be in use")
            elif not 0 <= n < self.N or n == k:
                fail("result", "the iterator does not move to another slot")
            elif n == s:
                if not self.islive(q):
                    fail("result", "the iterator moves to a slot that may not be in use")
                elif self.rel(q, S, cur) != ">":
                    fail("result", "the iterator does not move to a slot with a higher rank")
            elif s != k and self.may(q, (cur, ">"), (("R", g, n), "<")):
                fail("unseen", "the iterator may pass over a slot")
        elif root == "remove_range":
            if not self.isdead(q) and get("inr") is not False and not get("gone"):
                fail("unseen", "an entry in the range may be left where it is")
        elif root == "get":
            n = self.entry(v, True)
            if n != (self.start if self.start < self.N else -1):
                fail("result", "what the iterator is at is not what it gives")
        elif root == "Drop":
            if get("z") is not True and not get("nodrop") and not (get("tk") and get("tv")):
                fail("kept", "the content of a slot that has been used may not be dropped")


def pick(F):
    """name -> the instance that is explored"""
    out = {}
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if MOD not in f.n or "{closure" in f.n:
            continue
        name = f.n.rsplit("::", 1)[-1]
        key = {"drop": "Drop", "max_less": "Scanner::max_less" if "Scanner" in f.n else "Leaf::max_less"}.get(name, name)
        if key == "remove_if" and not any(cname(c) == "std::ops::FnMut::call_mut" and c.get("how") == "unresolved" for _, c in f.calls()):
            continue
        out.setdefault(key, f.id)
    return out


def names(F):
    Leaf.variant = {}
    for t in F.types:
        if t["k"] == "adt" and t["adt"].startswith(MOD) and "variants" in t:
            for k, n in enumerate(t["variants"]):
                Leaf.variant[t["adt"].rsplit("::", 1)[-1], k] = n
    F.scan_fields = ()
    F.leaf_entries = F.leaf_meta = F.scan_index = None
    for t in F.types:
        if t["k"] == "adt" and t["adt"].startswith(MOD) and t.get("fields"):
            for n, x in t["fields"][0]:
                x = F.ts(x)
                if t["adt"].endswith("::Leaf"):
                    if "UnsafeCell<" in x:
                        F.leaf_entries = n
                    elif "Atomic<usize>" in x:
                        F.leaf_meta = n
                elif t["adt"].endswith("::Scanner") and x == "usize" and "meta" not in n:
                    F.scan_index = n
            if t["adt"].endswith("::Scanner"):
                F.scan_fields = tuple("leaf" if "&" in F.ts(x) else "index" if "meta" not in n else "meta" for n, x in t["fields"][0])


def args(R, f):
    """The arguments an operation is explored with (None: nothing is known about them)."""
    if R.root == "insert_unchecked":
        return ("arg", 0), ("arg", 1), ("arg", 2), ("i", R.s)
    if R.root in ("proceed", "get"):
        fs = {"leaf": ("arg", 9), "index": ("i", R.start)}
        return (("agg", MOD + "Scanner", 0, tuple(fs.get(k, ("M", 0)) for k in R.F.scan_fields), None),)
    return None


def start(R):
    """The state an operation starts in."""
    q = frozenset()
    if R.root in ("proceed", "get"):
        q = R.put(q, g=0)
        if R.start < R.N:
            q = R.put(q, cur0=R.start)
    return q


PARTS = {
    # root: (the number of slots in a quick run, in a thorough run)
    "C28": {"insert": (4, 5), "remove_if": (5, 7), "remove_range": (5, 8), "insert_unchecked": (5, 14), "freeze": (2, 2), "thaw": (2, 2), "Drop": (6, 10)},
    "C29": {"search_entry": (5, 7), "search_value": (5, 7), "min_greater_equal": (5, 7), "Scanner::max_less": (5, 7), "max_entry": (6, 9),
            "is_empty": (6, 10), "proceed": (5, 8), "get": (5, 14)},
}
JOBS = None


def one(job):
    pid, root, N, s, at = job
    F, P = JOBS
    R = Leaf(F, N, s, root)
    R.start = at
    E = Engine(F, R, 6000000)
    f = F.fns[P[root]]
    bad = {}
    try:
        outs = E.run_root(f.id, start(R), args(R, f))
    except facts.ToolError as e:
        return job, {}, R.n, 0, E.nstates, E.visited_fns, str(e)
    for k, q, v in outs:
        R.finish(lambda key, msg: bad.setdefault((key, f.n), (msg, f.sp, [f.n])), k, q, v)
    for k, b in E.reports.items():
        bad.setdefault((k.split(":")[0], b["fn"]), (b["msg"], b["span"], b["chain"]))
    return job, bad, R.n, len(outs), E.nstates, E.visited_fns, None


def part(c, pid, floors):
    global JOBS
    F = facts.load()
    names(F)
    P = pick(F)
    deep = os.environ.get("VERIF_TIER") == "thorough"
    jobs = []
    for root, ns in PARTS[pid].items():
        if root not in P:
            raise facts.ToolError("%s%s is not found" % (MOD, root))
        N = ns[deep]
        if root == "proceed":
            jobs += [(pid, root, N, s, at) for at in list(range(N + 1)) + [W] for s in range(N)]
        elif root == "get":
            jobs += [(pid, root, N, at if at < N else 0, at) for at in list(range(N + 1)) + [W]]
        else:
            jobs += [(pid, root, N, s, N) for s in range(N)]
    JOBS = F, P
    n, per, seen, states = {}, {}, set(), 0
    with multiprocessing.get_context("fork").Pool(8) as p:
        for job, bad, nn, k, ns, vis, err in p.imap_unordered(one, jobs):
            if err:
                raise facts.ToolError("%s: %s" % (job[1], err))
            for (key, fn), (msg, where, chain) in sorted(bad.items()):
                c.fail("%s:%s" % (key, fn), "%s (%s, followed slot %d of %d)" % (msg, job[1], job[3], job[2]), where, chain)
            for name, x in nn.items():
                n.setdefault(name, set()).update((job[1],) + y for y in x)
            per[job[1]] = per.get(job[1], 0) + k
            seen |= vis
            states += ns
    for what, k, least in floors:
        c.floor(what, len(n.get(k, ())), least)
    c.floor("operations explored", len(per), len(PARTS[pid]))
    c.count(sum(per.values()))
    c.analysed["operations explored"] = len(per)
    c.analysed["slots followed"] = len(jobs)
    c.analysed["outcomes compared with the rule"] = sum(per.values())
    c.analysed["functions visited"] = len(seen)
    c.analysed["abstract states"] = states
    for r in sorted(per):
        c.sample({"operation": F.fns[P[r]].n, "slots": PARTS[pid][r][deep], "outcomes": per[r]})
