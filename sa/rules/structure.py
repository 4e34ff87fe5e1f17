"""Structure of the tree: who may change it, in which order it is published, and what readers have to confirm."""
import re

import engine
import facts
from engine import Engine, NONE, RES, UNIT, contains, some
from facts import cname
from rules.c02 import split_fields
from rules.tree import INSERT, LEAF, NODE, NODES, TreeLocks, at, canon, opt, peel

SH = "sdd::AtomicShared::"
ANSWER = re.compile(r"InsertResult|RemoveResult|Option<\(?&|Scanner")
WRITE = re.compile(r"(sdd::AtomicShared|std::sync::atomic::Atomic)::(swap|store|compare_exchange(_weak)?|fetch_\w+|update_\w+)$")


class Structure(TreeLocks):
    """q = TreeLocks' + (facts,): what is known about leaves, entries and metadata on this path."""
    Q0 = (frozenset(),) * 6
    registers = True
    tracked = re.compile(r"^sdd::|^opt$|^at$")

    def __init__(self, F):
        super().__init__(F)
        self.children, self.unbounded, self.record_field = set(), set(), set()
        for t in F.types:
            if t["k"] == "adt" and t["adt"] in NODES and t["adt"] != NODE:
                for fs in t["fields"]:
                    for name, ft in fs:
                        T = F.types[ft]
                        if T["k"] == "adt" and T["adt"] == LEAF:
                            self.children.add(name)
                        elif T["k"] == "adt" and T["adt"] == "sdd::AtomicShared":
                            self.unbounded.add(name)
        tree = [f for f in F.fns.values() if f.n.startswith(("tree_index", "<tree_index"))]
        ty = lambda f, k: F.ts(f.locals[k][0])
        self.scan, self.validate, self.search, self.retired, self.leafops, self.readers, self.state = set(), set(), set(), set(), {}, set(), set()
        self.flips, self.raw, self.jumps = {}, set(), set()
        states = [t for t in F.types if t["k"] == "adt" and t["adt"].endswith("RemoveRangeState")]
        self.states = states[0]["variants"] if states else []
        for f in tree:
            short = f.n.split("::")[-1]
            if f.argc >= 1 and ty(f, 1).startswith("&" + LEAF + "<"):
                r = ty(f, 0)
                if re.search(r"leaf::Scanner<", r):
                    self.scan.add(f.id)
                elif f.argc == 2 and r == "bool" and ty(f, 2) == "usize":
                    self.validate.add(f.id)
                elif re.match(r"\(std::option::Option<\(&.*, usize\)$", r):
                    self.search.add(f.id)
                elif short in ("is_retired", "is_empty"):
                    self.retired.add(f.id)
                elif "InsertResult" in r:
                    if f.argc == 3:
                        self.leafops[f.id] = "insert"
                elif "RemoveResult" in r:
                    self.leafops[f.id] = "remove"
                elif f.argc == 2 and r.startswith("std::option::Option<"):
                    self.leafops[f.id] = "search"
                elif f.argc == 4 and ty(f, 4) == "usize" and r == "()":
                    self.raw.add(f.id)
            elif f.argc >= 1 and "leaf::Scanner<" in ty(f, 1) and short not in ("next", "get", "metadata"):
                self.jumps.add(f.id)
            elif f.argc == 1 and short == "retired" and ty(f, 0) == "bool":
                self.retired.add(f.id)
            elif peel(ty(f, 0)).endswith("RemoveRangeState") and f.argc:
                self.state.add(f.id)
            for i, c in f.calls():
                s = cname(c).split("::")[-1]
                if "Dimension::" in cname(c) and s in ("freeze", "thaw") and "closure" in f.n:
                    self.flips[f.id] = s
        locky = self.lockfns | self.inserts | set(self.consumes) | self.neutral
        known = self.scan | self.validate | self.search | self.retired | set(self.leafops) | self.raw | self.state | self.jumps
        ev = set(known)
        for f in tree:
            if f.id in known:
                continue
            for i, c in f.calls():
                n = cname(c)
                if n.startswith(SH) or WRITE.match(n) and self.cell(c) or n.startswith("sdd::LinkedList::") or \
                        n.endswith("::fetch_update"):
                    ev.add(f.id)
        self.ev = (ev - known) | {f.id for f in tree for i, c in f.calls() if c.get("id", -1) in known and f.id not in known}
        reach = F.callers_closure(self.ev)
        for f in tree:
            if f.argc >= 1 and ty(f, 1).startswith("&" + NODE + "<") and f.id in reach and f.id not in locky and f.id not in known:
                self.readers.add(f.id)
        self.known = known
        self.n = {k: set() for k in ("changes", "uses", "published", "checked", "removed")}

    def events(self):
        return super().events() | self.ev | self.readers

    def cell(self, c):
        """An atomic pointer to a leaf or a node."""
        return any(peel(re.sub(r"^\*(mut|const) ", "", self.F.ts(g))) in NODES + (LEAF,) for g in c.get("ga", []))

    node_cell = cell

    # ------------------------------------------------------------ places
    def entry_of(self, v):
        if not isinstance(v, tuple):
            return None
        if len(v) == 4 and v[0] == "call" and v[1] == "entry":
            return v
        for x in v:
            r = self.entry_of(x)
            if r is not None:
                return r
        return None

    def host(self, p):
        """The node a place belongs to."""
        if not isinstance(p, tuple):
            return None
        if p[0] == "fld" and p[1] in self.unbounded | self.children and not (isinstance(p[2], tuple) and p[2][0] == "fld" and
                                                                             p[2][1] in self.records()):
            return canon(p[2])
        if self.record(p):
            return canon(p[2][2])
        e = p
        while isinstance(e, tuple) and e[0] in ("fld", "dc"):
            e = e[2]
        if isinstance(e, tuple) and e[0] == "call" and e[1] == "entry":
            return self.host(e[2][0])
        return None

    def locked(self, q, n):
        return n in q[0] or n in q[1] or isinstance(n, tuple) and self.fresh(n)

    @staticmethod
    def place(v):
        """The place a child was loaded from."""
        return v[2][0] if isinstance(v, tuple) and v[0] == "call" and v[1] == "at" else None

    @staticmethod
    def purge(q, *vs):
        return q[:5] + (frozenset(x for x in q[5] if not any(contains(x, v) for v in vs)),)

    @staticmethod
    def add(q, *xs):
        return q[:5] + (q[5] | set(xs),)

    def leafy(self, c):
        """Does this leaf hold children (and not entries)?"""
        return any(peel(self.F.ts(g)) == "sdd::AtomicShared" for g in c.get("ga", []))

    # ------------------------------------------------------------ checks
    def use(self, cx, c, v, q):
        p = self.place(v)
        n = self.host(p) if p is not None else None
        if n is None or self.locked(q, n) or self.record(p):
            return
        self.n["uses"].add((cx.f.n, cx.bb))
        if ("ok", p) not in q[5]:
            self.err(cx, "24:unconfirmed", "uses a child that it found by key without confirming, after loading the pointer, that the node has not "
                     "changed since the key was looked up: an entry that was moved by a split may be missed")

    def change(self, cx, q, p, what):
        n = self.host(p)
        self.n["changes"].add((cx.f.n, cx.bb))
        if n is None:
            if p is None or p[0] != "call" or p[1] != "at":
                self.err(cx, "23:unknown", "%s, and the analysis cannot tell of which node" % what)
        elif not self.locked(q, n) and not self.unset(n):
            self.err(cx, "23:unlocked", "%s without holding the lock of the node" % what)

    def on_call(self, cx, c, args, q):
        fid = c.get("id", -1)
        n = cname(c)
        short = n.split("::")[-1]
        a0 = canon(args[0]) if args else None
        f = self.F.fns.get(fid)
        unw = [("unwind", q, None)] if fid in self.F.fns and self.E.may_unwind(fid) else []
        X = q[5]
        if fid in self.search:
            e = ("call", "entry", (a0,), cx.site)
            q2 = self.over(self.purge(q, e))
            if self.host(a0) is not None:
                q2 = self.add(q2, ("meta", ("fld", 1, e)))
            return [("ret", q2, e)] + unw
        if fid in self.scan:
            s = ("call", "scan", (a0,), cx.site)
            if re.search("leaf::Scanner<", self.F.ts(cx.f.locals[0][0])):
                self.use(cx, c, a0, q)
            q2 = self.purge(q, s)
            if self.host(a0) is not None:
                q2 = self.add(q2, ("meta", ("fld", "metadata", s)))
            if "Option" in self.F.ts(f.locals[0][0]):
                return [("ret", q2, NONE), ("ret", q2, some(s))] + unw
            return [("ret", q2, s)] + unw
        if short == "metadata" and isinstance(a0, tuple) and a0[:2] == ("call", "scan"):
            return [("ret", q, ("fld", "metadata", a0))]
        if n in ("std::option::Option::replace", "std::option::Option::insert") and len(args) == 2:
            v, q = self.save(args[1], q)
            return [("ret", q, args[0], None, False, some(v))]
        if n == "std::option::Option::take":
            return [("ret", q, args[0], None, False, NONE)]
        if short in ("next", "get") and isinstance(a0, tuple) and a0[:2] == ("call", "scan"):
            e = ("call", "entry", (a0[2][0], a0), 0)
            if short == "get":
                return [("ret", q, NONE), ("ret", q, some(e))]
            return [("ret", self.purge(q, e), NONE, None, False, a0), ("ret", self.purge(q, e), some(e), None, False, a0)]
        if fid in self.validate:
            md = canon(args[1])
            ok = {("ok", x[1]) for x in X if x[0] == "loaded" and x[2] == md}
            self.n["checked"].add((cx.f.n, cx.bb))
            return [("ret", self.add(q, *ok), ("i", 1)), ("ret", q, ("i", 0))]
        if fid in self.retired and a0 is not None:
            k = "empty" if short == "is_empty" else "retired"
            h = self.host(a0) if k == "empty" else a0
            if k == "empty" and not self.locked(q, h):
                return [("ret", q, None)]
            return [("ret", self.add(q, (k, a0)), ("i", 1)), ("ret", q, ("i", 0))]
        if fid in self.jumps:
            return [("ret", q, None)] + unw
        if fid in self.state:
            v = ("call", "state", (), cx.site)
            return [("ret", self.drop_state(q), v)] + unw
        if fid in self.readers:
            if ANSWER.search(self.F.ts(f.locals[0][0])):
                self.use(cx, c, a0, q)
            return [("ret", q, None)] + unw
        if fid in self.leafops and a0 is not None:
            kind = self.leafops[fid]
            if a0[0] == "fld" and a0[1] in self.children:
                if kind == "insert":
                    return self.add_child(cx, c, a0, args, q)
                if kind == "remove":
                    return self.remove_child(cx, a0, args, q)
            elif self.place(a0) is not None:
                self.use(cx, c, a0, q)
            if kind != "insert":
                return [("ret", q, None)] + unw
            return [("ret", q, self.result(i)) for i in range(len(self.variants))] + unw
        if fid in self.raw:
            h = self.host(a0)
            if h is not None:
                self.change(cx, q, a0, "adds a child")
                if not self.fresh(h):
                    self.err(cx, "23:raw", "adds a child to a node that others may use, without updating its metadata atomically")
            elif not any(x[0] == "frozen" for x in X):
                self.err(cx, "24:thawed", "copies entries to a new leaf while the leaf they come from is not frozen: an entry inserted or "
                         "removed meanwhile is lost, or comes back")
            return [("ret", q, UNIT)]
        if n == "sdd::LinkedList::push_back" and a0 is not None:
            l = canon(args[1])
            if args[2] != ("i", 1):
                self.err(cx, "24:unmarked", "links a new leaf without marking the full one: an iterator on it does not know that the next leaf "
                         "may hold keys it has returned already")
            if l is not None:
                q = self.add(q, ("linked", l, a0), *[("before", l, x[1]) for x in X if x[0] == "linked"])
            return [("ret", q, ("agg", RES, 0, (UNIT,), 0))]
        if n == "sdd::LinkedList::delete_self" and a0 is not None:
            if any(x[0] == "linked" and x[1] == a0 for x in X):
                for x in X:
                    if x[0] == "before" and x[1] == a0 and ("deleted", x[2]) not in X:
                        self.err(cx, "24:undo", "takes the low-key leaf of an unfinished split out of the list before the high-key leaf: an "
                                 "iterator skips its entries")
            return [("ret", self.add(q, ("deleted", a0)), ("i", 1))]
        if n == "sdd::LinkedList::unmark":
            return [("ret", q, None)]
        if n.endswith("::fetch_update") and a0 is not None and a0[0] == "fld":
            clo = next((a[1][1] for a in args if a is not None and a[0] == "agg" and isinstance(a[1], tuple)), None)
            l = canon(a0[2])
            flip = self.flips.get(clo)
            if flip == "freeze":
                return [("ret", self.add(q, ("frozen", l)), ("agg", RES, 0, (None,), 0)), ("ret", self.add(q, ("frozen", l)), ("agg", RES, 1, (None,), 1))]
            if flip == "thaw":
                self.thaw(cx, q, l)
                q2 = q[:5] + (X - {("frozen", l)},)
                return [("ret", q2, ("agg", RES, 0, (None,), 0)), ("ret", q2, ("agg", RES, 1, (None,), 1))]
            return None
        if n == SH + "clone" and self.cell(c):
            return [("ret", q, self.content(q, args[0]))]
        if n in (SH + "load", SH + "get_shared") and self.cell(c) and a0 is not None:
            h = self.host(a0)
            if h is not None and not self.record(a0):
                if ("deleted", at(a0)) in X:
                    q = self.purge(q, at(a0))
                    X = q[5]
                e = self.entry_of(a0)
                src = e[2][1] if e is not None and len(e[2]) > 1 else e
                q = q[:5] + (frozenset(x for x in X if x[:2] not in (("ok", a0), ("loaded", a0))) |
                             {("loaded", a0, x[1]) for x in X if x[0] == "meta" and self.host_of_meta(x[1]) == h and
                              (src is None or contains(x[1], src))},)
                if n == SH + "load":
                    return [("ret", q, self.content(q, args[0]))]
                v = self.content(q, a0)
                return [("ret", q, some(v) if v in q[0] else opt(v))]
        if WRITE.match(n) and self.cell(c):
            if self.linkcell(a0):
                return [("ret", q, None)]
            q2 = self.publish(cx, n, c, args, a0, q)
            r = super().on_call(cx, c, args, q)
            out = []
            for x in r or [("ret", q, None)]:
                ok = n.startswith("std") or short == "swap" or x[2] is not None and x[2][2] == 0
                out.append((x[0], x[1][:5] + ((q2 if ok else q)[5],)) + x[2:])
            return out
        if fid in self.inserts or fid in self.neutral:
            if ANSWER.search(self.F.ts(f.locals[0][0])) and a0 is not None:
                self.use(cx, c, a0, q)
        return super().on_call(cx, c, args, q)

    def over(self, q):
        """Forgets the splits that were completed."""
        X = q[5]
        dead = {x[1] for x in X if x[0] == "deleted"}
        new = {x[1] for x in X if x[0] == "linked" and x[2] in dead}
        return q[:5] + (frozenset(x for x in X if not any(contains(x, t) for t in dead) and not (
            x[0] in ("child", "before") and x[1] in new)),)

    def save(self, v, q):
        """An entry that is kept while the scan goes on gets a name of its own."""
        e = self.entry_of(v)
        if e is None or e[3] != 0 or len(e[2]) < 2:
            return v, q
        e2 = e[:3] + (1,)

        def sub(x):
            return e2 if x == e else tuple(sub(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x
        old = {x for x in q[5] if contains(x, e)}
        q = self.purge(q, e2)
        return sub(v), self.add(q, *map(sub, old))

    def host_of_meta(self, md):
        v = md
        while v[0] == "fld":
            v = v[2]
        return self.host(v[2][0])

    def linkcell(self, p):
        return isinstance(p, tuple) and p[0] == "fld" and p[1] == "link" or isinstance(p, tuple) and p[0] == "call" and p[1].endswith("link_ref")

    def drop_state(self, q):
        return q[:5] + (frozenset(x for x in q[5] if x[0] != "state"),)

    def thaw(self, cx, q, l):
        X = q[5]
        for x in X:
            if x[0] == "linked" and x[1] == l and ("deleted", x[2]) not in X and ("deleted", l) not in X:
                self.err(cx, "24:early", "lets a new leaf be changed before the full leaf has been taken out of the list: an entry removed from the "
                         "new leaf is still seen in the old one")
            if x[0] == "linked" and x[2] == l and ("deleted", x[1]) not in X and ("deleted", l) not in X:
                self.err(cx, "24:stale", "lets the full leaf be changed again while a new leaf with copies of its entries is still in the list")

    def add_child(self, cx, c, ch, args, q):
        n = self.host(ch)
        v = canon(args[2])
        self.change(cx, q, ch, "adds a child")
        self.n["published"].add((cx.f.n, cx.bb))
        if v is None:
            self.err(cx, "24:unknown", "publishes a child the analysis cannot identify")
        X = q[5]
        link = [x for x in X if x[0] == "linked" and x[1] == v]
        if self.kind(c) == "leaf":
            if not link:
                self.err(cx, "24:unlinked", "publishes a leaf that is not in the linked list yet: iterators miss its entries")
            elif ("frozen", v) not in X and ("deleted", link[0][2]) not in X:
                self.err(cx, "24:unfrozen", "publishes a new leaf that can be changed while the full leaf is still in the list")
        out = [("unwind", q, None)]
        for i, vn in enumerate(self.variants):
            out.append(("ret", self.add(q, ("child", v)) if vn == "Success" else q, self.result(i)))
        return out

    def kind(self, c):
        return "node" if any(NODE + "<" in self.F.ts(g) for g in c.get("ga", [])) else "leaf"

    def remove_child(self, cx, ch, args, q):
        e = self.entry_of(canon(args[1]))
        self.change(cx, q, ch, "removes a child")
        self.n["removed"].add((cx.f.n, cx.bb))
        X = q[5]
        if e is None:
            self.err(cx, "24:unknown", "removes a child the analysis cannot identify")
            return [("ret", q, None)]
        dead = any(x[0] == "retired" and contains(x[1], e) for x in X) or ("moved", e) in X
        leaf = "leaf_node" in cx.f.n
        st = {self.states[x[1]] for x in X if x[0] == "state"}
        if not dead and not (st and st <= ({"FullyContained"} if leaf else {"FullyContained", "MaybeAbove"})):
            q = self.add(q, ("wanted", e))
        if ("wanted", e) in q[5]:
            self.err(cx, "24:live", "removes the key of a child that may still hold entries, neither retired nor moved nor covered by the range to "
                     "remove: its entries are unreachable from here on")
        return [("ret", self.add(q, ("gone", e)), None)]

    def publish(self, cx, n, c, args, p, q):
        """A pointer to a child changes: the facts afterwards."""
        h = self.host(p)
        X = q[5]
        short = n.split("::")[-1]
        new = args[2] if "compare_exchange" in short else args[1]
        tag = None
        if n.startswith("sdd") and new is not None and new[0] == "agg" and new[1] == "tuple":
            new, tag = new[3]
        elif n.startswith("sdd"):
            # (Option<Shared>, Tag), not taken apart.
            new = ("fld", 0, new) if new is not None else None
        new = canon(new)
        null = new == NONE
        if self.record(p):
            self.change(cx, q, p, "changes the record of a split")
            return q if null else self.purge(q, at(p))
        if h is None:
            if isinstance(p, tuple) and p[0] == "fld" and not (isinstance(p[2], tuple) and self.fresh(p[2])):
                return self.reroot(cx, short, args, p, new, q)
            if p is None:
                self.change(cx, q, None, "changes a pointer to a child")
            return q
        if "compare_exchange" in short:
            if canon(args[1]) is not None and self.nullish(args[1]) and p[0] == "fld" and p[1] in self.unbounded:
                return q
        self.change(cx, q, p, "changes a pointer to a child")
        if self.fresh(h):
            return q
        self.n["published"].add((cx.f.n, cx.bb))
        old = at(p)
        e = self.entry_of(p)
        if null:
            if e is not None:
                if ("gone", e) not in X:
                    self.err(cx, "24:nulled", "clears the pointer to a child whose key is still there: readers find the key, and wait for the pointer "
                             "to change for ever")
            else:
                if ("retired", old) not in X:
                    self.err(cx, "24:emptied", "takes the last child out of a node that may still hold entries")
                if tag is None or tag == ("i", 0) or tag[0] == "agg" and tag[2] == 0:
                    self.err(cx, "24:unretired", "takes the last child out of a node without marking the node as retired: a new child can be put there, "
                             "which nobody reaches")
            return q
        if new is None:
            self.err(cx, "24:unknown", "publishes a child the analysis cannot identify")
            return q
        src = self.place(new)
        src = new if self.entry_of(new) is not None and src is None else src
        e2 = self.entry_of(src) if src is not None else None
        if e2 is not None and e2 != e:
            # An existing child moves to another pointer of the node.
            if ("gone", e2) in X:
                self.err(cx, "24:lost", "moves a child after its key has been removed: in between, its entries cannot be found, and what is inserted "
                         "where it goes is lost")
            if ("retired", old) not in X and not any(x[0] == "state" for x in X):
                self.err(cx, "24:emptied", "replaces a child that may still hold entries")
            return self.add(q, ("moved", e2))
        # A split: the full child is replaced.
        if self.kind(c) == "leaf":
            link = [x for x in X if x[0] == "linked" and x[1] == new]
            if not link:
                self.err(cx, "24:unlinked", "publishes a leaf that is not in the linked list yet: iterators miss its entries")
            if ("deleted", old) not in X:
                self.err(cx, "24:undeleted", "replaces the full leaf before it has been taken out of the list: an entry removed from the new leaf is "
                         "still seen in the old one")
            others = {x[1] for x in X if x[0] == "linked" and x[1] != new}
        else:
            others = set()
            if not any(x[0] == "child" and x[1] != new and self.half(x[1], h, q) for x in X):
                self.err(cx, "24:half", "replaces the full child by its high-key half before the low-key half can be found: its entries vanish")
        for o in others:
            if ("child", o) not in X:
                self.err(cx, "24:half", "replaces the full child by its high-key half before the low-key half can be found: its entries vanish")
            elif self.kind(c) == "leaf" and ("before", o, new) not in X:
                self.err(cx, "24:order", "links the low-key leaf after the high-key leaf: iterators return entries out of order or skip them")
        return q

    def half(self, v, h, q):
        p = self.place(v)
        return p is not None and self.record(p) and self.host(p) == h or any(x[1] == v and self.host(x[0]) == h for x in q[2])

    def nullish(self, v):
        v = canon(v)
        return v is not None and (v == NONE or v[0] == "call" and v[1].endswith("::null"))

    def reroot(self, cx, short, args, p, new, q):
        if "compare_exchange" not in short or self.nullish(args[1]):
            return q
        X = q[5]
        old = canon(args[1])
        if old is None:
            self.err(cx, "24:unknown", "replaces a root the analysis cannot identify")
        elif not self.locked(q, old):
            self.err(cx, "23:root", "replaces the root of the tree without holding its lock")
        elif new == NONE and ("retired", old) not in X:
            self.err(cx, "24:root", "drops a root that may still hold entries")
        elif isinstance(new, tuple) and self.place(new) is not None and self.host(self.place(new)) == old and \
                not any(x[0] == "empty" and self.host(x[1]) == old for x in X):
            self.err(cx, "24:root", "replaces the root by its unbounded child although other children may be left")
        return q

    def on_branch(self, cx, val, fact, q):
        if val[0] == "disc" and val[1][0] == "call" and val[1][1] == "state":
            ks = {fact[1]} if fact[0] == "=" else set(range(len(self.states))) - set(fact[1])
            old = {x[1] for x in q[5] if x[0] == "state"}
            ks = ks & old if old else ks
            if not ks:
                return None
            q = self.add(self.drop_state(q), *[("state", k) for k in ks])
        if val[0] == "disc" and (fact == ("=", 0) or fact[0] == "!" and 1 in fact[1]):
            v = canon(val[1])
            if self.place(v) is not None and any(x[0] == "linked" and v in x[1:] for x in q[5]):
                return None
        return super().on_branch(cx, val, fact, q)


def explore(F):
    """Runs every tree operation; returns (rule, engine, findings)."""
    R = Structure(F)
    engine.MAXDEPTH[0] = 16
    E = Engine(F, R, 3000000)
    bad = []
    done = []

    def run(fid, q, args=None):
        R.root = fid
        E.memo.clear()
        done.append(fid)
        return E.run_root(fid, q, args)

    def settled(f, kind, q):
        X = q[5]
        for x in sorted(X, key=repr):
            if x[0] == "frozen" and ("deleted", x[1]) not in X:
                bad.append(("24:frozen:%s" % f.n, "%s %s and leaves a leaf frozen: its entries can never be changed again" % (f.n, HOW[kind]), f.sp))
            if x[0] == "linked" and ("deleted", x[2]) not in X and ("deleted", x[1]) not in X:
                bad.append(("24:copies:%s" % f.n, "%s %s and leaves a new leaf in the list next to the full one, with copies of the same "
                            "entries" % (f.n, HOW[kind]), f.sp))

    full = R.variants.index("Full")
    reached = F.callers_closure(R.events())
    roots = {r.id for r in F.roots() if r.id in reached and "Locker" not in r.n and r.id not in R.inserts | R.neutral | R.readers | R.known and
             r.id not in R.consumes}
    done += sorted(R.inserts | R.neutral | R.readers | roots)
    outs = E.run_many(done, R.Q0)
    for fid in sorted(R.inserts):
        f = F.fns[fid]
        for kind, q, v in outs[fid]:
            res = v[3][0] if kind == "ret" and v is not None and v[0] == "agg" and v[2] == 0 and v[3] else None
            if res is not None and res[0] == "agg" and res[2] == full:
                X = q[5]
                tgt = {x[2] for x in X if x[0] == "linked"}
                for x in X:
                    if x[0] == "linked" and ("frozen", x[1]) not in X:
                        bad.append(("24:unfrozen:%s" % f.n, "%s reports a full node and leaves a new leaf unfrozen that its parent is going to "
                                    "publish while the full leaf is still there" % f.n, f.sp))
                for t in tgt:
                    if ("frozen", t) not in X:
                        bad.append(("24:thawed:%s" % f.n, "%s reports a full node whose full leaf can still be changed although its entries "
                                    "have been copied" % f.n, f.sp))
                    if ("deleted", t) in X:
                        bad.append(("24:gone:%s" % f.n, "%s reports a full node after taking its full leaf out of the list, so that the split cannot be "
                                    "rolled back" % f.n, f.sp))
                if ("arg", 0) in q[0]:
                    R.shape(q, ("arg", 0), {("arg", 0)} | R.inside(q, ("arg", 0)))
            else:
                settled(f, kind, q)
    for fid in sorted(R.neutral | R.readers | roots):
        for kind, q, v in outs[fid]:
            settled(F.fns[fid], kind, q)
    sf = split_fields(F)
    payload = next([F.types[fs[0][1]]["adt"] for fs in t["fields"]] for t in F.types if t["k"] == "adt" and t["adt"] == NODE)
    for fid, what in sorted(R.consumes.items()):
        f = F.fns[fid]
        todo, seen = set(R.shapes), set()
        while todo - seen:
            sh = min(todo - seen, key=repr)
            seen.add(sh)
            names = {p[1] for p, _ in sh[2] if p[2][2] == ("arg", 0)}
            for k, adt in enumerate(payload):
                if names - sf.get(adt, set()):
                    continue
                a = ("agg", NODE, k, (("arg", 0),), k)
                leaves = leaf_fields(F, adt)
                q0 = sh
                if leaves:
                    rec = next(iter(R.records()))
                    lo, hi, org = (at(("fld", x, ("fld", rec, ("arg", 0)))) for x in leaves)
                    q0 = sh[:5] + (frozenset([("linked", lo, org), ("linked", hi, org), ("before", lo, hi), ("frozen", lo), ("frozen", hi),
                                              ("frozen", org)]),)
                for kind, q, v in run(fid, q0, (a,) + tuple(("arg", i) for i in range(1, f.argc))):
                    if leaves:
                        X = q[5]
                        settled(f, kind, q)
                        if what == "commit" and ("deleted", org) not in X:
                            bad.append(("24:copies:%s" % f.n, "%s ends with the full leaf still in the list" % f.n, f.sp))
                        if what == "rollback" and not {("deleted", lo), ("deleted", hi)} <= X:
                            bad.append(("24:copies:%s" % f.n, "%s ends with a new leaf still in the list" % f.n, f.sp))
            todo |= R.shapes
    for k, r in sorted(E.reports.items()):
        bad.append((k, "%s %s" % (r["fn"], r["msg"]), r["span"], r["chain"]))
    return R, E, bad, done


HOW = {"ret": "returns", "unwind": "unwinds out of a panic of the user's code", "cordrop": "is dropped while suspended"}


def leaf_fields(F, adt):
    """The (low, high, origin) leaf pointers of the split record of a node type."""
    for t in F.types:
        if t["k"] == "adt" and t["adt"] == adt:
            for fs in t["fields"]:
                for name, ft in fs:
                    T = F.types[ft]
                    if "StructuralChange" in F.ts(ft) and T["k"] == "adt":
                        ls = [n for n, x in T["fields"][0] if "AtomicShared" in F.ts(x) and LEAF in F.ts(x)]
                        lo = [n for n in ls if "low" in n]
                        hi = [n for n in ls if "high" in n]
                        og = [n for n in ls if n not in lo + hi]
                        if len(lo) == len(hi) == len(og) == 1:
                            return lo[0], hi[0], og[0]
    return None
