"""Locks of tree nodes, as tokens that move between variables, guards and the records of an ongoing split."""
import re

from engine import NONE, RES, UNIT, Rule, contains, some
from facts import cname
from rules.locks import FORGET, acq_mode, guard_types, rel_mode, POISON

NODE = "tree_index::node::Node"
NODES = (NODE, "tree_index::leaf_node::LeafNode", "tree_index::internal_node::InternalNode")
INSERT = "tree_index::leaf::InsertResult"
LEAF = "tree_index::leaf::Leaf"
FLAG = "flag"


def peel(t):
    return re.sub(r"<.*", "", re.sub(r"^(&('\w+ )?(mut )?)+", "", t))


def canon(v):
    """The node (or place) a value designates: payloads and options are looked through."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "fld" and v[1] == 0 and isinstance(v[2], tuple) and v[2][0] == "dc":
        return canon(v[2][2])
    if v[0] == "call" and v[1] == "opt":
        return canon(v[2][0])
    if v[0] == "agg" and (v[1] == "std::option::Option" and v[2] == 1 or v[1] == NODE):
        return canon(v[3][0])
    if v[0] in ("fld", "dc"):
        return (v[0], v[1], canon(v[2]))
    if v[0] == "elem":
        return ("elem", canon(v[1]))
    if v[0] == "call":
        return ("call", v[1], tuple(canon(a) for a in v[2]), v[3])
    return v


def at(place):
    return ("call", "at", (canon(place),), 0)


def opt(v):
    return ("call", "opt", (v,), 0)


class TreeLocks(Rule):
    """q = (held, owned, cells, flags, unlinked): held: {node}: raw lock taken; owned: {node}: a guard owns the lock; cells: {(place, node)}
    pointers recorded in a node's split record; flags: {(flag, 0/1)} exit guard flags;
    unlinked: {node} held nodes that were replaced where they were reachable."""
    tracked = re.compile(r"min_greater_equal|Scanner|^sdd::|^opt$|^at$")
    wants_store = True
    drop_unwinds = False
    Q0 = (frozenset(),) * 5

    def __init__(self, F):
        super().__init__(F)
        self.guards = {k for k in guard_types(F) if k.startswith("tree_index")}
        self.lockfns = {f.id for f in F.fns.values() if f.n.startswith(("tree_index", "<tree_index")) and any(
            acq_mode(cname(c)) or rel_mode(cname(c)) or POISON.match(cname(c)) for i, c in f.calls())}
        poison = F.callers_closure({f.id for f in F.fns.values() if any(POISON.match(cname(c)) for i, c in f.calls())})
        reach = F.callers_closure(self.lockfns)
        ty = lambda f, k: F.ts(f.locals[k][0])
        self.inserts, self.consumes, self.neutral, self.leafins = set(), {}, set(), set()
        for f in F.fns.values():
            if f.argc < 1 or not f.n.startswith("tree_index"):
                continue
            if ty(f, 1).startswith("&" + LEAF) and ty(f, 0).startswith(INSERT):
                self.leafins.add(f.id)
            if not ty(f, 1).startswith("&" + NODE + "<") or f.id not in reach:
                continue
            if INSERT in ty(f, 0):
                self.inserts.add(f.id)
            elif f.argc == 2 and ty(f, 0) == "()" and "Guard" in ty(f, 2):
                self.consumes[f.id] = "commit" if f.id in poison else "rollback"
            else:
                self.neutral.add(f.id)
        self.variants = next(t["variants"] for t in F.types if t["k"] == "adt" and t["adt"] == INSERT)
        self.nvals = {}
        for t in F.types:
            if t["k"] == "adt" and t["adt"] == INSERT:
                self.nvals = [len(x) for x in t["fields"]]
        self.root = None
        self.counts = {"acquired": set(), "released": set(), "guards": set(), "contracts": set(), "recorded": set()}
        self.shapes = set()

    def events(self):
        return self.lockfns | self.inserts | set(self.consumes) | self.neutral

    # ------------------------------------------------------------ tokens
    def token(self, lockv):
        if lockv is None or lockv[0] != "fld":
            return None
        return canon(lockv[2])

    def where(self, q, tok):
        for p, t in q[2]:
            if t == tok:
                return p
        return None

    def inside(self, q, tok):
        """Everything recorded in the split record of tok, and in theirs."""
        out, todo = set(), [tok]
        while todo:
            t = todo.pop()
            for p, x in q[2]:
                if x not in out and contains(p, t):
                    out.add(x)
                    todo.append(x)
        return out

    def shape(self, q, t, sub):
        """Records what a node in the middle of a split looks like: it is what commit and rollback have to cope with."""
        m = {t: ("arg", 0)}
        for i, x in enumerate(sorted(sub - {t}, key=repr)):
            m[x] = ("call", "new", (("i", -1),), i) if self.fresh(x) else ("call", "half", (), i)

        def re_(v):
            if v in m:
                return m[v]
            return tuple(re_(x) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v
        self.shapes.add((frozenset(m.values()), frozenset(), frozenset((re_(p), re_(x)) for p, x in q[2] if x in sub and x != t and
                                                                       any(contains(p, y) for y in sub)), frozenset(), frozenset()) + self.Q0[5:])

    def without(self, q, toks):
        return self.norm((q[0] - toks,) + q[1:])

    @staticmethod
    def norm(q):
        return (q[0], q[1], frozenset(x for x in q[2] if x[1] in q[0]), q[3], q[4] & q[0]) + q[5:]

    def err(self, cx, key, msg):
        self.E.report(cx, "%s:%s" % (key, cx.f.n), msg)

    # ------------------------------------------------------------ hooks
    def on_call(self, cx, c, args, q):
        n = cname(c)
        held, owned, cells, flags, gone = q[:5]
        more = q[5:]
        m = acq_mode(n)
        if m:
            t = self.token(args[0])
            self.counts["acquired"].add((cx.f.n, cx.bb))
            if m != "excl":
                self.err(cx, "shared", "takes a shared lock of a tree node, which nothing else expects")
                return [("ret", q, None)]
            if t is None:
                self.err(cx, "unknown", "locks a node the analysis cannot identify")
                return [("ret", q, None)]
            if t in held or t in owned:
                if n.endswith("try_lock"):
                    return [("ret", q, ("i", 0))]
                self.err(cx, "twice", "locks a node it has locked already")
                return []
            got = (held | {t}, owned, cells, flags, gone) + more
            if n.endswith("try_lock") or not self.fresh(t):
                return [("ret", got, ("i", 1)), ("ret", q, ("i", 0))]
            return [("ret", got, ("i", 1))]
        if rel_mode(n) or POISON.match(n):
            t = self.token(args[0])
            self.counts["released"].add((cx.f.n, cx.bb))
            if t is None:
                if self.lost(cx):
                    return [("ret", q, ("i", 1))]
                self.err(cx, "unknown", "releases a lock the analysis cannot identify")
                return [("ret", q, ("i", 1))]
            if t in held:
                if rel_mode(n) and self.consumes.get(self.root) == "commit" and t == ("arg", 0):
                    self.err(cx, "unpoisoned", "unlocks a node that was replaced by its halves, so that it can still be locked and changed")
                return [("ret", self.norm((held - {t},) + q[1:]), ("i", 1))]
            if POISON.match(n) and t in owned:
                return [("ret", (held, owned - {t}) + q[2:], ("i", 1))]
            if self.unset(t):
                return []
            self.err(cx, "unheld", "%s the lock of a node it does not hold" % ("poisons" if POISON.match(n) else "releases"))
            return [("ret", q, ("i", 1))]
        if FORGET.match(n) and any(peel(self.F.ts(g)) in self.guards for g in c.get("ga", [])):
            v = args[0]
            t = canon(v[3][0]) if v is not None and v[0] == "agg" and v[3] else None
            if t is not None and t in owned:
                self.err(cx, "leak", "forgets the guard of a node that is still locked")
            return [("ret", q, None)]
        if n == "exit_guard::ExitGuard::new" and args[0] is not None and args[0][0] == "i":
            fl = ("call", FLAG, (), cx.site)
            flags = frozenset(x for x in flags if x[0] != fl) | {(fl, args[0][1])}
            r = self.E.run(c["id"], (fl,) + args[1:], (held, owned, cells, flags, gone) + more, cx.stack + (cx.f,))
            return list(r)
        fid = c.get("id", -1)
        if fid in self.inserts:
            self.counts["contracts"].add((cx.f.n, cx.bb))
            t = canon(args[0])
            out = [("unwind", q, None), ("ret", q, ("agg", RES, 1, (None,), 1))]
            for i, vn in enumerate(self.variants):
                r = ("agg", RES, 0, (self.result(i),), 0)
                if vn != "Full":
                    out.append(("ret", q, r))
                elif t is not None and t not in held:
                    out.append(("ret", (held | {t}, owned, cells, flags, gone - {t}) + more, r))
            return out
        if fid in self.leafins:
            return [("unwind", q, None)] + [("ret", q, self.result(i)) for i in range(len(self.variants))]
        if fid in self.consumes:
            t = canon(args[0])
            self.counts["contracts"].add((cx.f.n, cx.bb))
            if t is not None and t in held:
                sub = {t} | self.inside(q, t)
                self.shape(q, t, sub)
                if self.root not in self.consumes and (t in gone) != (self.consumes[fid] == "commit"):
                    self.err(cx, "order", "commits the split of a node that is still reachable" if t not in gone else
                             "rolls back the split of a node that has been replaced already")
                return [("ret", self.without(q, sub), UNIT)]
            if t is not None and self.unset(t):
                return []
            self.err(cx, "unheld", "%s the split of a node it does not hold the lock of" % self.consumes[fid])
            return [("ret", q, UNIT)]
        if fid in self.neutral:
            out = [("ret", q, None)]
            if self.E.may_unwind(fid):
                out.append(("unwind", q, None))
            return out
        g = self.F.fns.get(fid)
        if n.endswith("min_greater_equal"):
            out = [("ret", q, ("call", "entry", (canon(args[0]),), cx.site))]
            return out + [("unwind", q, None)]
        if g is not None and g.argc == 0 and peel(self.F.ts(g.locals[0][0])) in NODES:
            v = next((x[2][1]["v"] for b in g.bb for x in b["s"] if x[0] == "=" and x[2][0] == "agg" and x[2][1].get("adt") == NODE), -1)
            return [("ret", q, ("call", "new", (("i", v),), cx.site))]
        a0 = args[0] if args else None
        if n in ("sdd::Shared::new", "sdd::AtomicShared::from"):
            return [("ret", q, a0)]
        if n in ("sdd::Shared::get_mut", "sdd::Ptr::as_ref", "sdd::Ptr::get_shared", "*mut T::as_ref", "*const T::as_ref",
                 "sdd::Ptr::as_ref_unchecked", "sdd::AtomicShared::get_shared"):
            if a0 is None:
                return [("ret", q, None)]
            if n == "sdd::AtomicShared::get_shared":
                a0 = self.content(q, a0)
            a0 = canon(a0)
            if a0 == NONE:
                return [("ret", q, NONE)]
            return [("ret", q, some(a0) if a0 in held else opt(a0))]
        if n in ("sdd::AtomicShared::load", "std::sync::atomic::Atomic::load") and self.node_cell(c):
            return [("ret", q, self.content(q, a0))]
        if n in ("sdd::AtomicShared::swap", "std::sync::atomic::Atomic::swap", "std::sync::atomic::Atomic::store") and self.node_cell(c):
            new = args[1]
            if n.startswith("sdd"):
                new = new[3][0] if new is not None and new[0] == "agg" and new[3] else None
            old = self.content(q, a0)
            p = canon(a0)
            if canon(old) in held and not self.record(p) and not self.private(p):
                gone |= {canon(old)}
            cells = frozenset(x for x in cells if x[0] != p)
            new = canon(new)
            if (self.record(p) or self.private(p)) and new is not None and new in held:
                self.counts["recorded"].add((cx.f.n, cx.bb))
                cells |= {(p, new)}
            o = some(old) if old is not None and canon(old) in held else opt(old) if old is not None else None
            if n.startswith("std"):
                o = old
            elif n.endswith("swap"):
                o = ("agg", "tuple", None, (o, None), None)
            return [("ret", self.norm((held, owned, cells, flags, gone) + more), o)]
        if n == "sdd::AtomicShared::compare_exchange" and self.node_cell(c):
            new = args[2]
            new = new[3][0] if new is not None and new[0] == "agg" and new[3] else None
            old = self.content(q, a0)
            pay = canon(new)
            if pay is not None and pay != NONE and not self.fresh(pay):
                pay = at(a0)
            won = q[:4] + (gone | ({canon(old)} & held),) + more
            return [("ret", won, ("agg", RES, 0, (("agg", "tuple", None, (
                        some(old) if old is not None and canon(old) in held else opt(old), pay), None),), 0)),
                    ("ret", q, ("agg", RES, 1, (("agg", "tuple", None, (new, at(a0)), None),), 1))]
        return None

    def result(self, i):
        return ("agg", INSERT, i, (None,) * self.nvals[i], i)

    def lost(self, cx):
        """The lock belongs to a guard whose value was lost (it went through an Option): the guard type is checked on its own."""
        return any(peel(self.F.ts(cx.f.locals[k][0])) in self.guards for k in range(1, cx.f.argc + 1))

    @staticmethod
    def payload(v):
        """The content of an option (not the option itself)."""
        return v[0] == "fld" and v[1] == 0 and v[2][0] == "dc" and v[2][1] == 1 and v[2][2][0] == "call" and v[2][2][1] == "opt"

    def fresh(self, t):
        return t[0] == "call" and t[1] == "new"

    def unset(self, t):
        """A pointer of a split record that nobody recorded in this operation: it is null there."""
        return t[0] == "call" and t[1] == "at" and self.record(t[2][0])

    def record(self, p):
        return isinstance(p, tuple) and p[0] == "fld" and isinstance(p[2], tuple) and p[2][0] == "fld" and p[2][1] in self.records()

    def private(self, p):
        """A place in a node that this operation has created."""
        while isinstance(p, tuple) and p[0] in ("fld", "dc"):
            p = p[2]
        return isinstance(p, tuple) and self.fresh(p)

    def records(self):
        r = getattr(self, "_rec", None)
        if r is None:
            r = set()
            for t in self.F.types:
                if t["k"] == "adt" and t["adt"] in NODES:
                    for fs in t["fields"]:
                        for name, ft in fs:
                            if "StructuralChange" in self.F.ts(ft):
                                r.add(name)
            self._rec = r
        return r

    def node_cell(self, c):
        return any(peel(re.sub(r"^\*(mut|const) ", "", self.F.ts(g))) in NODES for g in c.get("ga", []))

    def content(self, q, place):
        if place is None:
            return None
        p = canon(place)
        for x, t in q[2]:
            if x == p:
                return t
        return at(p)

    def on_branch(self, cx, val, fact, q):
        if val[0] == "disc":
            x = canon(val[1])
            if isinstance(x, tuple) and self.fresh(x) and x[2] and x[2][0][1] >= 0 and (val[1] == x or self.payload(val[1])):
                k = x[2][0][1]
                return q if (fact == ("=", k) or fact[0] == "!" and k not in fact[1]) else None
        if val[0] == "call" and val[1] == FLAG:
            for f, b in q[3]:
                if f == val and b is not None:
                    ok = (b == fact[1]) if fact[0] == "=" else (b not in fact[1])
                    return q if ok else None
        return q

    def on_store(self, cx, target, v, q):
        p = canon(target)
        if p is not None and canon(v) in q[0] and (self.record(p) or self.private(p)):
            return q[:2] + (frozenset(x for x in q[2] if x[0] != p) | {(p, canon(v))},) + q[3:]
        if target is not None and target[0] == "call" and target[1] == FLAG:
            b = v[1] if v is not None and v[0] == "i" else None
            return q[:3] + (frozenset(x for x in q[3] if x[0] != target) | {(target, b)},) + q[4:]
        return q

    def on_agg(self, cx, adt, variant, vals, q):
        if adt in self.guards:
            t = canon(vals[0]) if vals else None
            self.counts["guards"].add((cx.f.n, cx.bb))
            if t is None or t not in q[0]:
                self.err(cx, "guard", "builds a guard for a node whose lock it does not hold")
                return q
            return self.norm((q[0] - {t}, q[1] | {t}) + q[2:])
        return q

    def on_drop(self, cx, T, v, q):
        names = {g["n"].split(" as ")[0].lstrip("<") for g in T.get("glue", ()) if "n" in g}
        if names & self.guards:
            from engine import find_agg
            for g in names & self.guards:
                a = find_agg(v, g) if v is not None else None
                t = canon(a[3][0]) if a is not None else None
                if t is not None:
                    q = (q[0], q[1] - {t}) + q[2:]
                elif v is None or v[0] != "agg":
                    q = (q[0], frozenset()) + q[2:]
            return [("ret", q)]
        return None

    def on_yield(self, cx, q):
        if q[0]:
            self.err(cx, "await", "awaits while it holds the lock of a tree node")
        return q
