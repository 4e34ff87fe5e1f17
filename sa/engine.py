"""Path-sensitive typestate interpretation of the instance MIR with inlining through memoised summaries.

A rule supplies a hashable typestate `q` and hooks; the engine explores every abstract path (normal, unwinding, coroutine
drop) of a function, running local callees, closures, drop glue and awaited coroutines in context.  Values are abstract:

  None                       unknown
  ('i', n)                   integer / bool constant
  ('arg', i)                 parameter of a root
  ('call', name, args, site) result of an opaque call
  ('fld', name, v) ('dc', variant, v) ('elem', v)   projections of a symbolic value
  ('agg', kind, variant, vals, discr)  kind: adt name, ('closure', id), ('coroutine', id), 'tuple', 'array'
  ('disc', v)  ('not', v)  ('eq', v, n)  ('bin', op, a, b)
References and raw pointers are transparent: the value of `&x` is the value of x.
"""
import multiprocessing
import sys

from facts import cname, rv_operands, op_place

sys.setrecursionlimit(100000)
MAXDEPTH = [7]
SMALL = 14


class Blowup(Exception):
    pass


def depth(v):
    if not isinstance(v, tuple):
        return 0
    d = 0
    for x in v:
        if isinstance(x, tuple):
            e = depth(x)
            if e > d:
                d = e
    return d + 1


def cap(v):
    if v is None or depth(v) <= 2 * MAXDEPTH[0]:
        return v
    if v[0] == "call":
        return ("call", v[1], (), v[3])
    return None


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def leaves(v, out=None):
    """The call results a value is built from."""
    if out is None:
        out = set()
    if isinstance(v, tuple):
        if v and v[0] == "call":
            out.add(v)
        for y in v:
            if isinstance(y, tuple):
                leaves(y, out)
    return out


def find_agg(v, adt):
    if isinstance(v, tuple):
        if v and v[0] == "agg":
            if v[1] == adt:
                return v
            for x in v[3]:
                r = find_agg(x, adt)
                if r is not None:
                    return r
    return None


def is_enum_agg(v):
    return v[0] == "agg" and v[2] is not None


def strip(v):
    """What survives a mutable borrow: structure, not numbers or variants."""
    if v is None:
        return None
    if v[0] == "i":
        return None
    if v[0] == "agg":
        if is_enum_agg(v):
            return None
        return (v[0], v[1], v[2], tuple(strip(x) for x in v[3]), v[4])
    if v[0] in ("disc", "not", "eq") or v[0] == "bin" and v[1] not in ("Add", "Sub"):
        return None
    return v


IDENT = {
    "std::future::IntoFuture::into_future", "<F as std::future::IntoFuture>::into_future",
    "std::pin::Pin::new_unchecked", "std::pin::Pin::get_unchecked_mut", "std::pin::pin_new_unchecked_in_helper",
    "std::pin::Pin::new", "std::pin::Pin::as_mut", "std::pin::Pin::get_mut",
    "std::mem::ManuallyDrop::new", "std::mem::ManuallyDrop::take", "std::mem::ManuallyDrop::into_inner",
    "<std::mem::ManuallyDrop as std::ops::Deref>::deref", "<std::mem::ManuallyDrop as std::ops::DerefMut>::deref_mut",
    "std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref",
    "std::option::Option::as_deref_mut", "std::option::Option::cloned", "std::option::Option::copied",
    "std::result::Result::as_ref", "std::result::Result::as_mut",
    "std::ptr::NonNull::as_ref", "std::ptr::NonNull::as_mut", "std::ptr::NonNull::as_ptr", "std::ptr::NonNull::cast",
    "std::ptr::NonNull::new_unchecked", "std::ptr::from_ref", "std::ptr::from_mut", "*const T::cast_mut",
    "*mut T::cast_const", "*const T::cast", "*mut T::cast", "std::cell::UnsafeCell::get", "std::cell::UnsafeCell::get_mut",
    "<I as std::iter::IntoIterator>::into_iter", "std::array::as_slice", "<sdd::Shared as std::ops::Deref>::deref",
    "<sdd::Shared as std::convert::AsRef>::as_ref", "sdd::Shared::as_ptr", "std::convert::identity",
    "std::ptr::NonNull::from", "std::ptr::NonNull::from_ref", "std::ptr::read", "*const T::read",
    "<T as std::convert::From>::from", "<T as std::convert::Into>::into", "std::borrow::Borrow::borrow",
    "std::mem::transmute", "std::boxed::Box::new",
}
PRUNE = ("core::panicking::panic", "core::panicking::assert_failed", "core::panicking::unreachable_default_msg",
         "core::panicking::unreachable", "std::hint::unreachable_unchecked", "core::panicking::unreachable_display")
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
POLL = "std::task::Poll"
TWO = (OPT, RES, CF, POLL)
PENDING = ("agg", POLL, 1, (), 1)
UNIT = ("agg", "tuple", None, (), None)


def some(v):
    return ("agg", OPT, 1, (v,), 1)


NONE = ("agg", OPT, 0, (), 0)


def poll_ready(v):
    return ("agg", POLL, 0, (v,), 0)


class Rule:
    """Hooks. A hook that takes q returns a new q, or None to prune the path (infeasible)."""
    name = "rule"
    inline_small = True
    registers = False
    indexed = False     # indices, arithmetic and counted loops are followed (on_binq, on_un)

    def tallies(self):
        return [(k, getattr(self, k)) for k in ("n", "counts") if isinstance(getattr(self, k, None), dict)]
    tracked = None      # regex: the opaque calls whose results are kept symbolic (None: all)

    def __init__(self, F):
        self.F = F

    def events(self):
        """Ids of instances that contain an event of the rule (so that everything reaching them is inlined)."""
        raise NotImplementedError

    def on_call(self, cx, callee, args, q):
        """None: not handled.  Otherwise a list of (kind, q, value)."""
        return None

    def on_branch(self, cx, val, fact, q):
        return q

    def on_bin(self, op, a, b):
        """The value of a binary operation, or None for the default."""
        return None

    def on_agg(self, cx, adt, variant, vals, q):
        return q

    def on_const(self, adt, vals):
        """The value of a constant struct of integers (rules with `indexed`)."""
        return ("agg", adt, None, vals, None)

    def on_use(self, cx, place, val, q):
        """A place with a deref or field projection is read, or written."""
        return q

    def on_yield(self, cx, q):
        return q

    def on_drop(self, cx, ty, val, q):
        """None: default (run the glue).  Otherwise a list of (kind, q)."""
        return None

    def poll_extern(self, cx, fut, q):
        """[(ready q, ready value)], [pending q]"""
        return [(q, ("call", "ready", (fut,), cx.site))], [q]

    def on_loop_exit(self, cx, header, q):
        return q

    def closure_once(self, cx, a):
        """A library function that is given this closure runs it at least once."""
        return False

    def closure_done(self, cx, a, q):
        """A library function that runs the closure at least once (closure_once) is done with it."""
        return q

    def on_exit(self, cx, kind, q):
        """The function cx.f is left (kind: ret, unwind, cordrop)."""
        return q

    def user_unwinds(self, cx, callee):
        return True


class Ctx:
    __slots__ = ("E", "f", "bb", "stack", "site", "facts", "env")

    def __init__(self, E, f, stack):
        self.E = E
        self.f = f
        self.stack = stack
        self.bb = 0
        self.site = None
        self.facts = {}
        self.env = {}

    @property
    def sp(self):
        return self.f.bb[self.bb]["sp"]

    def chain(self):
        return [g.n for g in self.stack] + [self.f.n]

    def known(self, val):
        return self.facts.get(val)

    def truth(self, val):
        """Whether a boolean value is known true/false here."""
        if val is None:
            return None
        if val[0] == "i":
            return val[1] != 0
        if val[0] == "not":
            r = self.truth(val[1])
            return None if r is None else not r
        k = self.facts.get(val)
        if k is None:
            return None
        if k[0] == "=":
            return k[1] != 0
        return True if 0 in k[1] else None

    def variant(self, val):
        """Known variant index (two-variant std enums) of a value."""
        if val is None:
            return None
        if val[0] == "agg":
            return val[2]
        k = self.facts.get(("disc", val))
        if k is None:
            return None
        if k[0] == "=":
            return k[1]
        if len(k[1]) == 1 and k[1][0] in (0, 1):
            return 1 - k[1][0]
        return None


def truth_of(fact):
    if fact[0] == "=":
        return fact[1] != 0
    return True if 0 in fact[1] else None


class Engine:
    def __init__(self, F, rule, max_states=400000):
        self.F = F
        self.rule = rule
        rule.E = self
        self.ev = set(rule.events())
        self.interesting = F.callers_closure(self.ev)
        self.memo = {}
        self.active = {}
        self.reports = {}
        self.nstates = 0
        self.nruns = 0
        self.max_states = max_states
        self.paths_done = set()
        self._small = {}
        self._live = {}
        self._loopinfo = {}
        self.visited_fns = set()
        self.cur_dest = None

    # ---------------------------------------------------------------- helpers
    def run_many(self, fids, q):
        """run_root for each function, in parallel; {fid: outcomes}. What the rule counts (rule.n, rule.counts) is merged."""
        global POOL
        fids = list(fids)
        if len(fids) < 2:
            return {i: self.run_root(i, q) for i in fids}
        POOL = self, q
        out = {}
        with multiprocessing.get_context("fork").Pool(min(8, len(fids))) as p:
            for fid, r, n, counts, reports, seen in p.imap_unordered(run_one, fids):
                out[fid] = r
                self.nstates += n
                self.visited_fns |= seen
                for k, x in reports.items():
                    self.reports.setdefault(k, x)
                for name, old in self.rule.tallies():
                    for k, x in counts[name].items():
                        if isinstance(x, set):
                            old.setdefault(k, set()).update(x)
                        else:
                            old[k] = max(old.get(k, 0), x)
        return out

    def report(self, cx, key, msg):
        k = key
        if k not in self.reports:
            self.reports[k] = {"key": k, "msg": msg, "fn": cx.f.n, "span": cx.sp, "chain": cx.chain()}

    def small(self, fid):
        """Accessor-like function inlined for its value only."""
        r = self._small.get(fid)
        if r is None:
            f = self.F.fns[fid]
            r = len(f.bb) <= SMALL and not f.cor and not f.loops() and f.n not in ("",)
            if r:
                for i, c in f.calls():
                    if c.get("id", -1) == fid:
                        r = False
            self._small[fid] = r
        return r

    def should_inline(self, fid, depth_):
        if fid not in self.F.fns:
            return False
        if fid in self.interesting:
            return True
        return self.rule.inline_small and depth_ < 40 and self.small(fid)

    def live(self, f):
        """Live-in locals per block (backward, whole locals)."""
        r = self._live.get(f.id)
        if r is not None:
            return r
        n = len(f.bb)
        use, kill = [set() for _ in range(n)], [set() for _ in range(n)]

        def u(i, l):
            if l not in kill[i]:
                use[i].add(l)

        def uplace(i, p):
            u(i, p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    u(i, e[1])

        def uop(i, o):
            p = o.get("c") or o.get("m")
            if p:
                uplace(i, p)
        for i, b in enumerate(f.bb):
            for s in b["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        uop(i, o)
                    if s[2][0] in ("ref", "raw"):
                        uplace(i, s[2][2])
                    elif s[2][0] == "discr":
                        uplace(i, s[2][1])
                    if len(s[1]) == 1:
                        kill[i].add(s[1][0])
                    else:
                        uplace(i, s[1])
                elif s[0] == "setd":
                    uplace(i, s[1])
            t = b["t"]
            if "sw" in t:
                uop(i, t["sw"])
            elif "drop" in t:
                uplace(i, t["drop"])
            elif "call" in t:
                uop(i, t["call"])
                for a in t["a"]:
                    uop(i, a)
                if len(t["d"]) > 1:
                    uplace(i, t["d"])
            elif "as" in t:
                uop(i, t["as"])
            elif "y" in t:
                uop(i, t["y"])
            elif "r" in t and t["r"] == "ret":
                u(i, 0)
        # A borrowed local stays observable through the borrow.
        always = set(f.mut_borrowed())
        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "raw") and "*" not in s[2][2][1:]:
                    always.add(s[2][2][0])
        inn = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s, _ in f.succ(i):
                    o |= inn[s]
                new = use[i] | (o - kill[i])
                if new != inn[i]:
                    inn[i] = new
                    ch = True
        r = [frozenset(x) for x in inn], frozenset()
        self._live[f.id] = r
        return r

    # ---------------------------------------------------------------- values
    def op(self, f, env, o):
        if "k" in o:
            v = o.get("v")
            if v is not None:
                try:
                    return ("i", int(v))
                except ValueError:
                    return None
            if "vs" in o and self.rule.indexed:
                return self.rule.on_const(self.const_adt(o["t"]), tuple(("i", int(x)) for x in o["vs"]))
            if "fn" in o and o["fn"].get("id", -1) >= 0:
                return ("fnitem", o["fn"]["id"], cname(o["fn"]))
            if "fn" in o:
                return ("fnitem", -1, cname(o["fn"]))
            return None
        p = o.get("c") or o.get("m")
        v = self.read(f, env, p)
        if v is not None and self.rule.wants_read and "*" in p[1:]:
            v = self.rule.on_read(v, self.curq)
        return v

    def const_adt(self, ty):
        while self.F.types[ty]["k"] in ("ref", "ptr"):
            ty = self.F.types[ty]["a"][0]
        return self.F.types[ty].get("adt")

    def proj(self, v, e):
        if v is None:
            return None
        if e == "*":
            return v
        if e[0] == "f":
            if v[0] == "agg":
                if e[1] < len(v[3]):
                    return v[3][e[1]]
                return None
            if v[0] == "i":
                return None
            return cap(("fld", e[2] if not e[2].isdigit() else e[1], v))
        if e[0] == "d":
            if v[0] == "agg":
                return v
            return cap(("dc", e[1], v))
        if e[0] in ("i", "ci", "ss"):
            return cap(("elem", v)) if v[0] != "agg" else None
        return None

    def read(self, f, env, p):
        v = env.get(p[0])
        for e in p[1:]:
            if self.rule.indexed and v is not None and e[0] in ("i", "ci"):
                v = cap(("elem", v, env.get(e[1]) if e[0] == "i" else ("i", e[1])))
            else:
                v = self.proj(v, e)
        return v

    def assign(self, f, env, p, v):
        """In place."""
        l = p[0]
        if len(p) == 1:
            if v is not None and l in f.mut_borrowed() and not (self.rule.registers and l in f.registers()) \
                    and not (self.rule.indexed and l in f.counters()):
                v = strip(v)
            if v is None:
                env.pop(l, None)
            else:
                env[l] = v
            return
        if "*" in p[1:]:
            # Through a pointer: forget the pointed-to number, keep structure.
            base = env.get(l)
            if base is not None:
                nv = self.update(base, p[1:], v)
                if nv is not None:
                    env[l] = nv
            return
        base = env.get(l)
        nv = self.update(base, p[1:], v) if base is not None else None
        if nv is None:
            if base is not None and base[0] == "agg":
                env.pop(l, None)
        else:
            env[l] = strip(nv) if l in f.mut_borrowed() else nv

    def update(self, base, projs, v):
        if not projs:
            return v
        e = projs[0]
        if e == "*":
            return self.update(base, projs[1:], v)
        if base is None or base[0] != "agg":
            return base
        if e[0] == "f":
            vals = list(base[3])
            while len(vals) <= e[1]:
                vals.append(None)
            vals[e[1]] = self.update(vals[e[1]], projs[1:], v)
            return (base[0], base[1], base[2], tuple(vals), base[4])
        if e[0] == "d":
            return self.update(base, projs[1:], v)
        return base

    def rvalue(self, cx, f, env, rv, q):
        k = rv[0]
        if k == "use":
            return self.op(f, env, rv[1]), q
        if k in ("ref", "raw"):
            return self.read(f, env, rv[2]), q
        if k == "cast":
            return self.op(f, env, rv[2]), q
        if k == "bin":
            a, b = self.op(f, env, rv[2]), self.op(f, env, rv[3])
            if self.rule.indexed:
                h, q = self.rule.on_binq(cx, rv[1], a, b, q)
                return (cap(h), q) if q is not None else (None, None)
            h = self.rule.on_bin(rv[1], a, b)
            if h is not None:
                return h, q
            if a is not None and b is not None and a[0] == "i" and b[0] == "i":
                op = rv[1]
                t = {"Eq": a[1] == b[1], "Ne": a[1] != b[1], "Lt": a[1] < b[1], "Le": a[1] <= b[1],
                     "Gt": a[1] > b[1], "Ge": a[1] >= b[1]}.get(op)
                if t is not None:
                    return ("i", int(t)), q
                if op in ("BitAnd", "BitOr"):
                    return ("i", a[1] & b[1] if op == "BitAnd" else a[1] | b[1]), q
                return None, q
            if rv[1] in ("Eq", "Ne") and (a is not None or b is not None):
                if a is not None and a[0] == "i":
                    a, b = b, a
                if a is not None and b is not None and b[0] == "i":
                    r = ("eq", a, b[1])
                    return (r if rv[1] == "Eq" else ("not", r)), q
            if rv[1] in ("Add", "Sub") and self.rule.tracked is not None:
                return None, q
            if a is None and b is None:
                return None, q
            if rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr", "Add", "Sub"):
                return cap(("bin", rv[1], a, b)), q
            return None, q
        if k == "un":
            a = self.op(f, env, rv[2])
            if self.rule.indexed and self.cur_dest is not None and f.lty(self.cur_dest)["s"] != "bool":
                return cap(self.rule.on_un(rv[1], a)), q
            if rv[1] == "Not" and a is not None:
                if a[0] == "i":
                    return (("i", 1 - a[1]) if a[1] in (0, 1) else None), q
                if a[0] == "not":
                    return a[1], q
                return ("not", a), q
            return None, q
        if k == "discr":
            v = self.read(f, env, rv[1])
            if v is None:
                return None, q
            if v[0] == "agg":
                if v[4] is not None:
                    return ("i", v[4]), q
                return None, q
            return ("disc", v), q
        if k == "agg":
            d = rv[1]
            vals = tuple(cap(self.op(f, env, o)) for o in rv[2])
            if "adt" in d:
                var = d["v"] if d.get("enum", self.is_enum(d["adt"])) else None
                dis = None
                if var is not None:
                    ds = self.discrs(d["adt"])
                    dis = ds[var] if ds and var < len(ds) else var
                q = self.rule.on_agg(cx, d["adt"], d.get("vn"), vals, q)
                return cap(("agg", d["adt"], var, vals, dis)), q
            if "closure" in d:
                return ("agg", ("closure", d.get("id", -1)), None, vals, None), q
            if "coroutine" in d:
                return ("agg", ("coroutine", d.get("id", -1)), None, vals, None), q
            if d.get("tuple"):
                return cap(("agg", "tuple", None, vals, None)), q
            return cap(("agg", "array", None, vals, None)) if len(vals) <= 8 else None, q
        return None, q

    def is_enum(self, adt):
        return self.adtinfo(adt)[0]

    def discrs(self, adt):
        return self.adtinfo(adt)[1]

    def adtinfo(self, adt):
        c = getattr(self.F, "_adts", None)
        if c is None:
            c = {}
            for t in self.F.types:
                if t["k"] == "adt" and t["adt"] not in c:
                    c[t["adt"]] = ("variants" in t, t.get("discrs"))
            self.F._adts = c
        r = c.get(adt)
        if r is None:
            r = (adt in TWO or adt == "std::cmp::Ordering", None)
        return r

    # ---------------------------------------------------------------- running
    def run_root(self, fid, q, args=None):
        """Outcomes of a root; where there is too much to explore, what was found so far is reported, if there is anything."""
        try:
            return self.run_root_(fid, q, args)
        except Blowup:
            if self.reports:
                return set()
            raise

    def run_root_(self, fid, q, args):
        f = self.F.fns[fid]
        if args is None:
            args = tuple(("arg", i) for i in range(f.argc))
        out = self.solve(fid, args, q)
        final = set()
        for k, q2, v in out:
            if k == "ret" and v is not None and v[0] == "agg" and isinstance(v[1], tuple) and v[1][0] == "coroutine":
                cid = v[1][1]
                if cid in self.F.fns:
                    final |= self.solve(cid, (v, None), q2)
                    continue
            final.add((k, q2, v))
        return final

    def solve(self, fid, args, q):
        """Fixpoint over recursion."""
        while True:
            self.changed = False
            self.fresh = set()
            out = self.run(fid, args, q, ())
            if not self.changed:
                return out
            # Recursion was cut with an incomplete summary: forget what depended on it and go again.
            for k in list(self.memo):
                if k in self.fresh:
                    self.partial[k] = self.memo.pop(k)

    partial = {}

    def run(self, fid, args, q, stack):
        f = self.F.fns[fid]
        key = (fid, args, q)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active or (len(stack) > 60):
            self.active[key] = True
            return self.partial.get(key, frozenset())
        # Widen arguments in deep recursion.
        if sum(1 for g in stack if g.id == fid) >= 2:
            wargs = tuple(None if a is None or a[0] in ("call", "fld", "dc", "elem") else a for a in args)
            if wargs != args:
                return self.run(fid, wargs, q, stack)
        self.active[key] = False
        self.nruns += 1
        self.visited_fns.add(fid)
        while True:
            out = frozenset(self.explore(f, args, q, stack))
            used = self.active[key]
            if not used or self.partial.get(key, frozenset()) == out:
                break
            self.partial = dict(self.partial)
            self.partial[key] = out | self.partial.get(key, frozenset())
            self.active[key] = False
            for k in list(self.memo):
                if k in self.fresh:
                    del self.memo[k]
        del self.active[key]
        self.memo[key] = out
        self.fresh.add(key)
        return out

    def loopinfo(self, f):
        r = self._loopinfo.get(f.id)
        if r is None:
            r = [(h, b) for h, b in f.loops()]
            self._loopinfo[f.id] = r
        return r

    def explore(self, f, args, q, stack):
        cx = Ctx(self, f, stack)
        env = {i + 1: a for i, a in enumerate(args) if a is not None}
        for l in list(env):
            if l in f.mut_borrowed():
                env[l] = strip(env[l])
                if env[l] is None:
                    del env[l]
        outs = set()
        live, always = self.live(f)
        start = self.pack(0, env, {}, q, False, live, always)
        seen = {start}
        work = [start]
        loops = self.loopinfo(f)
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Blowup("%s: too many states" % f.n)
            bb, envt, factt, q, pend = st
            env, fa = dict(envt), dict(factt)
            for nxt in self.step(cx, f, bb, env, fa, q, pend, stack):
                if nxt[0] == "out":
                    q2 = self.rule.on_exit(cx, nxt[1], nxt[2])
                    if q2 is not None:
                        outs.add((nxt[1], q2, nxt[3]))
                    continue
                tb, env2, fa2, q2, pend2 = nxt
                for h, body in loops:
                    if bb in body and tb not in body:
                        cx.bb = bb
                        q2 = self.rule.on_loop_exit(cx, h, q2)
                        if q2 is None:
                            break
                if q2 is None:
                    continue
                s2 = self.pack(tb, env2, fa2, q2, pend2, live, always)
                if s2 not in seen:
                    seen.add(s2)
                    work.append(s2)
        return outs

    def pack(self, bb, env, fa, q, pend, live, always):
        lv = live[bb]
        env = {k: v for k, v in env.items() if v is not None and (k in lv or k in always or
                                                                   (isinstance(k, tuple) and k[1] in lv))}
        if fa:
            vals = list(env.values())
            fa = {k: v for k, v in fa.items() if any(self.relevant(k, v2) for v2 in vals)}
        return (bb, tuple(sorted(env.items(), key=lambda x: repr(x[0]))), tuple(sorted(fa.items(), key=repr)), q, pend)

    @staticmethod
    def relevant(k, v):
        """Fact on k can matter while v is around."""
        while k[0] in ("disc", "not", "eq") :
            if contains(v, k):
                return True
            k = k[1]
        if contains(v, k):
            return True
        # v is a part of k's subject, e.g. fact on a call whose argument is live: the call result itself is gone.
        return False

    def step(self, cx, f, bb, env, fa, q, pend, stack):
        b = f.bb[bb]
        cx.bb = bb
        cx.facts = fa
        cx.env = env
        rule = self.rule
        for s in b["s"]:
            self.curq = q
            if s[0] == "=":
                cx.site = (f.id, bb)
                if len(s[1]) > 1:
                    q = rule.on_use(cx, s[1], None, q) if rule.wants_use else q
                    if q is None:
                        return
                if rule.wants_use:
                    q = self.uses(cx, f, env, s[2], q)
                    if q is None:
                        return
                self.cur_dest = s[1][0] if len(s[1]) == 1 else None
                v, q = self.rvalue(cx, f, env, s[2], q)
                if q is None:
                    return
                if rule.wants_store and "*" in s[1][1:]:
                    q = rule.on_store(cx, self.read(f, env, s[1]), v, q)
                    if q is None:
                        return
                self.assign(f, env, s[1], v)
                if s[2][0] in ("ref", "raw") and s[2][1] == "mut" and len(s[1]) == 1:
                    p = s[2][2]
                    if "*" not in p[1:]:
                        env[("b", s[1][0])] = p[0]
                    elif ("b", p[0]) in env:
                        env[("b", s[1][0])] = env[("b", p[0])]
                elif s[2][0] in ("use", "cast") and len(s[1]) == 1:
                    o = s[2][1] if s[2][0] == "use" else s[2][2]
                    p = op_place(o)
                    if p and len(p) == 1 and ("b", p[0]) in env:
                        env[("b", s[1][0])] = env[("b", p[0])]
            elif s[0] in ("dead", "live"):
                env.pop(s[1], None)
                env.pop(("b", s[1]), None)
            elif s[0] == "setd":
                env.pop(s[1][0], None)
        self.curq = q
        t = b["t"]
        if "g" in t:
            yield (t["g"], env, fa, q, pend)
        elif "sw" in t:
            v = self.op(f, env, t["sw"])
            yield from self.branch(cx, v, t, env, fa, q, pend)
        elif "call" in t:
            yield from self.call(cx, f, t, env, fa, q, pend, stack)
        elif "drop" in t:
            yield from self.drop(cx, f, t, env, fa, q, pend, stack)
        elif "as" in t:
            yield (t["t"], env, fa, q, pend)
        elif "y" in t:
            if pend:
                if t["dr"] >= 0:
                    yield (t["dr"], env, fa, q, False)
                else:
                    yield ("out", "cordrop", q, None)
                return
            q2 = rule.on_yield(cx, q)
            if q2 is None:
                return
            e2 = dict(env)
            yield (t["t"], e2, dict(fa), q2, False)
            if t["dr"] >= 0:
                yield (t["dr"], dict(env), dict(fa), q2, False)
            else:
                yield ("out", "cordrop", q2, None)
        elif "r" in t:
            r = t["r"]
            if r == "ret":
                yield ("out", "ret", q, cap(env.get(0)))
            elif r == "unwind":
                yield ("out", "unwind", q, None)
            elif r == "cordrop":
                yield ("out", "cordrop", q, None)
            # abort, unreachable: no outcome

    def uses(self, cx, f, env, rv, q):
        for o in rv_operands(rv):
            p = op_place(o)
            if p:
                q = self.rule.on_use(cx, p, self.read(f, env, p), q)
                if q is None:
                    return None
        if rv[0] in ("ref", "raw"):
            q = self.rule.on_use(cx, rv[2], self.read(f, env, rv[2]), q)
        elif rv[0] == "discr":
            q = self.rule.on_use(cx, rv[1], self.read(f, env, rv[1]), q)
        return q

    def refine(self, cx, v, fact, fa, q):
        """(facts, q) after learning `fact` about v; None when infeasible.  fact: ('=', n) or ('!', (n, ..))."""
        while v is not None and v[0] == "not":
            t = truth_of(fact)
            if t is None:
                return fa, q
            fact = ("=", 0) if t else ("=", 1)
            v = v[1]
        if v is None:
            return fa, q
        if v[0] == "i":
            ok = (v[1] == fact[1]) if fact[0] == "=" else (v[1] not in fact[1])
            return (fa, q) if ok else None
        if v[0] == "eq":
            t = truth_of(fact)
            if t is None:
                return fa, q
            return self.refine(cx, v[1], ("=", v[2]) if t else ("!", (v[2],)), fa, q)
        if v[0] == "agg":
            return fa, q
        if v[0] == "bin" and v[1] in ("BitAnd",) and fact[0] == "=" and fact[1] == 1:
            pass
        old = fa.get(v)
        if old is not None:
            if old[0] == "=":
                if fact[0] == "=" and old[1] != fact[1]:
                    return None
                if fact[0] == "!" and old[1] in fact[1]:
                    return None
                fact = old
            elif fact[0] == "=":
                if fact[1] in old[1]:
                    return None
            else:
                fact = ("!", tuple(sorted(set(old[1]) | set(fact[1]))))
        cx.facts = fa
        q2 = self.rule.on_branch(cx, v, fact, q)
        if q2 is None:
            return None
        fa = dict(fa)
        fa[v] = fact
        return fa, q2

    def branch(self, cx, v, t, env, fa, q, pend):
        listed = []
        for k, b in t["ts"]:
            k = int(k)
            listed.append(k)
            if v is not None and v[0] == "i":
                if v[1] == k:
                    yield (b, env, fa, q, pend)
                    return
                continue
            r = self.refine(cx, v, ("=", k), fa, q)
            if r is not None:
                yield (b, dict(env), r[0], r[1], pend)
        o = t["o"]
        if v is not None and v[0] == "i":
            yield (o, env, fa, q, pend)
            return
        ot = self.cur_unreach(cx, o)
        if ot:
            return
        r = self.refine(cx, v, ("!", tuple(listed)), fa, q)
        if r is not None:
            yield (o, dict(env), r[0], r[1], pend)

    @staticmethod
    def cur_unreach(cx, o):
        b = cx.f.bb[o]
        return b["t"].get("r") == "unreachable"

    # ---------------------------------------------------------------- calls
    def call(self, cx, f, t, env, fa, q, pend, stack):
        args = tuple(cap(self.op(f, env, a)) for a in t["a"])
        c = t["call"].get("fn")
        cx.site = (f.id, cx.bb)
        if self.rule.wants_use:
            for a in t["a"]:
                p = op_place(a)
                if p:
                    q = self.rule.on_use(cx, p, self.read(f, env, p), q)
                    if q is None:
                        return
        # Locals lent mutably to the callee.
        lent = []
        for a in t["a"]:
            p = op_place(a)
            if p and len(p) == 1 and ("b", p[0]) in env:
                lent.append(env[("b", p[0])])
        outs = self.dispatch(cx, f, t, c, args, env, fa, q, stack)
        for item in outs:
            kind, q2, v = item[:3]
            fa2 = item[3] if len(item) > 3 and item[3] is not None else fa
            if kind == "ret":
                if t["t"] < 0:
                    continue
                e2 = dict(env)
                for n, l in enumerate(lent):
                    x = strip(e2.get(l)) if len(item) < 6 or n else item[5]
                    if x is None:
                        e2.pop(l, None)
                    else:
                        e2[l] = x
                for a in t["a"]:
                    p = a.get("m")
                    if p and len(p) == 1:
                        e2.pop(p[0], None)
                        e2.pop(("b", p[0]), None)
                f2 = fa2
                if v is not None and fa2:
                    lv = {x for x in leaves(v) if x[3] == cx.site}
                    if lv:
                        f2 = {k: x for k, x in fa2.items() if not any(contains(k, y) for y in lv)} \
                            if len(item) <= 3 or item[3] is None else fa2
                self.assign(f, e2, t["d"], v)
                if v is not None and v[0] == "agg" and v[1] == POLL and v[2] == 1 and len(item) > 4 and item[4]:
                    # The awaited coroutine was dropped while suspended: only the drop edge of our own yield follows.
                    e2 = self.mark_dead(f, t, env, e2)
                    yield (t["t"], e2, f2, q2, True)
                else:
                    yield (t["t"], e2, f2, q2, pend)
            elif kind == "unwind":
                u = t["u"]
                if u >= 0:
                    e2 = dict(env)
                    for a in t["a"]:
                        p = a.get("m")
                        if p and len(p) == 1:
                            e2.pop(p[0], None)
                    yield (u, e2, fa2, q2, pend)
                elif u == -1:
                    yield ("out", "unwind", q2, None)
            elif kind == "cordrop":
                yield ("out", "cordrop", q2, None)

    def mark_dead(self, f, t, env, after):
        """The polled future (a local holding a coroutine aggregate) is gone: its drop does nothing more."""
        fut = strip(self.op(f, env, t["a"][0]))
        if fut is None:
            return after
        return {k: (("dead",) if not isinstance(k, tuple) and strip(v) == fut else v) for k, v in after.items()}

    def run_closure(self, cv, args, q, stack, f):
        """Runs a closure value on args; returns outcomes or None if it is not a local closure."""
        if cv is None:
            return None
        if cv[0] == "agg" and isinstance(cv[1], tuple) and cv[1][0] == "closure" and cv[1][1] in self.F.fns:
            g = self.F.fns[cv[1][1]]
            # MIR closures take (self, args...) untupled.
            a = (cv,) + tuple(args)
            a = a[:g.argc] + (None,) * (g.argc - len(a))
            return self.run(g.id, a, q, stack + (f,))
        if cv[0] == "fnitem" and cv[1] in self.F.fns:
            g = self.F.fns[cv[1]]
            a = tuple(args)[:g.argc] + (None,) * (g.argc - len(args))
            return self.run(g.id, a, q, stack + (f,))
        return None

    def dispatch(self, cx, f, t, c, args, env, fa, q, stack):
        rule = self.rule
        if c is None:
            # Call through a function pointer: user code.
            return [("ret", q, None), ("unwind", q, None)]
        name = cname(c)
        for p in PRUNE:
            if name.startswith(p):
                return []
        r = rule.on_call(cx, c, args, q)
        if r is not None:
            return r
        if name in ("std::rt::panic_fmt", "std::rt::begin_panic", "core::panicking::panic_fmt"):
            return [("unwind", q, None)]
        base = c["n"]
        cid = c.get("id", -1)
        # Awaiting.
        if base == "std::future::Future::poll":
            fut = args[0] if args else None
            if fut is not None and fut[0] == "agg" and isinstance(fut[1], tuple) and fut[1][0] == "coroutine" \
                    and fut[1][1] in self.F.fns:
                g = self.F.fns[fut[1][1]]
                outs = self.run(g.id, (fut, None)[:g.argc] if g.argc else (), q, stack + (f,))
                return [(("ret", q2, poll_ready(v), fa) if k == "ret" else
                         ("ret", q2, PENDING, fa, True) if k == "cordrop" else (k, q2, v)) for k, q2, v in outs]
            if cid in self.F.fns and self.F.fns[cid].cor:
                g = self.F.fns[cid]
                outs = self.run(cid, (None,) * g.argc, q, stack + (f,))
                return [(("ret", q2, poll_ready(v), fa) if k == "ret" else
                         ("ret", q2, PENDING, fa, True) if k == "cordrop" else (k, q2, v)) for k, q2, v in outs]
            rs, ps = rule.poll_extern(cx, fut, q)
            return [("ret", q2, poll_ready(v)) for q2, v in rs] + [("ret", q2, PENDING, fa, False) for q2 in ps]
        # Calls of a known closure.
        if base in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            cargs = args[1][3] if len(args) > 1 and args[1] is not None and args[1][0] == "agg" else ()
            r = self.run_closure(args[0], cargs, q, stack, f)
            if r is None and cid in self.F.fns:
                g = self.F.fns[cid]
                a = (args[0],) + tuple(cargs)
                a = a[:g.argc] + (None,) * (g.argc - len(a))
                r = self.run(cid, a, q, stack + (f,))
            if r is not None:
                return [(k, q2, v) for k, q2, v in r]
            out = [("ret", q, self.sym(base, args, cx.site))]
            if rule.user_unwinds(cx, c):
                out.append(("unwind", q, None))
            return out
        if name == "std::mem::drop":
            ty = self.arg_type(f, t["a"][0])
            return [(k, q2, UNIT if k == "ret" else None) for k, q2 in self.drop_value(cx, f, ty, args[0], q, fa, stack)]
        if name == "std::mem::ManuallyDrop::drop":
            ty = self.arg_type(f, t["a"][0])
            while ty is not None and self.F.types[ty]["k"] in ("ref", "ptr"):
                ty = self.F.types[ty]["a"][0]
            if ty is not None and self.F.types[ty].get("a"):
                ty = self.F.types[ty]["a"][0]
                return [(k, q2, UNIT if k == "ret" else None)
                        for k, q2 in self.drop_value(cx, f, ty, args[0], q, fa, stack)]
            return [("ret", q, UNIT)]
        m = self.model(cx, f, name, c, args, q, fa, stack)
        if m is not None:
            return m
        if cid in self.F.fns and self.should_inline(cid, len(stack)):
            g = self.F.fns[cid]
            a = args[:g.argc] + (None,) * (g.argc - len(args))
            return [x for x in self.run(cid, a, q, stack + (f,))]
        # Opaque.
        val = self.sym(name, args, cx.site)
        if cid in self.F.fns:
            out = [("ret", q, val)]
            if self.may_unwind(cid) and rule.user_unwinds(cx, c):
                out.append(("unwind", q, None))
            return out
        # External function: it may run the local closures it is given, any number of times.
        qs = {q}
        out = []
        user = c.get("how") == "unresolved"
        for a in args:
            if a is not None and a[0] in ("agg", "fnitem") and self.closure_interesting(a):
                todo = list(qs)
                done = set(qs)
                must = rule.closure_once(cx, a)
                acc = set() if must else set(qs)
                n = 0
                while todo:
                    q1 = todo.pop()
                    r = self.run_closure(a, (), q1, stack, f)
                    for k, q2, v in r or ():
                        if k == "ret":
                            acc.add(q2)
                            if q2 not in done:
                                done.add(q2)
                                todo.append(q2)
                        elif k == "unwind":
                            out.append(("unwind", q2, None))
                qs = {rule.closure_done(cx, a, q1) for q1 in acc} if must else acc
            elif a is not None and a[0] == "agg" and isinstance(a[1], tuple) and a[1][0] == "closure" and \
                    a[1][1] in self.F.fns and self.may_unwind(a[1][1]):
                user = True
        for q2 in qs:
            out.append(("ret", q2, val))
        if (user or self.extern_user(name)) and rule.user_unwinds(cx, c):
            out.append(("unwind", q, None))
        return out

    def sym(self, name, args, site):
        """The symbolic result of an opaque call (nothing, where the rule does not follow it)."""
        t = self.rule.tracked
        if t is None:
            return cap(("call", name, args, site))
        if t.search(name):
            return cap(("call", name, args, site))
        return None

    def closure_interesting(self, a):
        if a[0] == "fnitem":
            return a[1] in self.interesting
        return isinstance(a[1], tuple) and a[1][0] == "closure" and a[1][1] in self.interesting

    def arg_type(self, f, o):
        p = op_place(o)
        if p is None or len(p) != 1:
            return o.get("t")
        return f.locals[p[0]][0]

    USER_EXTERN = ("<(U, T) as std::cmp::PartialEq>", "<&A as std::cmp::PartialEq>", "std::iter::Iterator::eq",
                   "std::fmt::Debug", "std::fmt::Formatter", "*mut T::drop_in_place", "<std::option::Option as std::cmp::PartialEq>",
                   "std::option::Option::cloned")

    def extern_user(self, name):
        return name.startswith(self.USER_EXTERN)

    def may_unwind(self, fid):
        """A local function can reach code of the user (or an explicit panic)."""
        s = getattr(self.F, "_mayunw", None)
        if s is None:
            base = set()
            for g in self.F.fns.values():
                for i, c in g.calls():
                    n = cname(c)
                    if c.get("how") == "unresolved" and not n.startswith(("std::ops::RangeBounds", "serde::de::MapAccess::size_hint")) \
                            or self.extern_user(n) or n in ("std::rt::panic_fmt",):
                        base.add(g.id)
                        break
                else:
                    for b in g.bb:
                        t = b["t"]
                        if "drop" in t and any("user" in x for x in self.F.types[t["ty"]].get("glue", [])):
                            base.add(g.id)
                            break
            s = self.F.callers_closure(base)
            self.F._mayunw = s
        return fid in s

    # Option/Result/Try models ------------------------------------------------
    def split_enum(self, cx, v, fa, q, variant):
        """(payload, facts, q) assuming v is the given variant (of a two-variant enum); None if impossible."""
        if v is not None and v[0] == "agg" and v[2] is not None:
            if v[2] != variant:
                return None
            return (v[3][0] if v[3] else None), fa, q
        if v is None:
            return None, fa, q
        r = self.refine(cx, ("disc", v), ("=", variant), fa, q)
        if r is None:
            return None
        return cap(("fld", 0, ("dc", variant, v))), r[0], r[1]

    def model(self, cx, f, name, c, args, q, fa, stack):
        if name in IDENT:
            return [("ret", q, args[0] if args else None)]
        a0 = args[0] if args else None
        short = name.rsplit("::", 1)[-1]
        if name.startswith("std::option::Option::") or name.startswith("std::result::Result::") or \
                "as std::ops::Try>" in name or "as std::ops::FromResidual>" in name:
            isopt = "option::Option" in name
            good, bad = (1, 0) if isopt else (0, 1)
            adt = OPT if isopt else RES

            def mk(variant, v):
                return ("agg", adt, variant, (v,) if not (isopt and variant == 0) else (), variant)
            if short in ("is_some", "is_ok", "is_none", "is_err"):
                want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[short]
                if a0 is None:
                    return [("ret", q, None)]
                if a0[0] == "agg" and a0[2] is not None:
                    return [("ret", q, ("i", int(a0[2] == want)))]
                return [("ret", q, ("eq", ("disc", a0), want))]
            if short in ("unwrap", "unwrap_unchecked", "expect"):
                r = self.split_enum(cx, a0, fa, q, good)
                return [("ret", r[2], r[0], r[1])] if r is not None else []
            if short == "branch":
                out = []
                r = self.split_enum(cx, a0, fa, q, good)
                if r is not None:
                    out.append(("ret", r[2], ("agg", CF, 0, (r[0],), 0), r[1]))
                r = self.split_enum(cx, a0, fa, q, bad)
                if r is not None:
                    out.append(("ret", r[2], ("agg", CF, 1, (mk(bad, r[0]),), 1), r[1]))
                return out
            if short == "from_residual":
                if isopt:
                    return [("ret", q, NONE)]
                e = a0[3][0] if a0 is not None and a0[0] == "agg" and a0[3] else None
                return [("ret", q, mk(1, e))]
            if short in ("map", "and_then", "map_or", "map_or_else", "is_some_and", "is_ok_and", "is_none_or",
                         "map_err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok", "err", "ok_or",
                         "ok_or_else", "or_else", "or", "filter", "inspect"):
                out = []
                clo = args[-1] if len(args) > 1 else None
                for variant in (good, bad):
                    r = self.split_enum(cx, a0, fa, q, variant)
                    if r is None:
                        continue
                    pl, fa2, q2 = r
                    is_good = variant == good
                    if short in ("map", "and_then", "is_some_and", "is_ok_and", "is_none_or", "map_or", "map_or_else",
                                 "filter", "inspect"):
                        if not is_good:
                            if short in ("is_some_and", "is_ok_and"):
                                v = ("i", 0)
                            elif short == "is_none_or":
                                v = ("i", 1)
                            elif short == "map_or":
                                v = args[1]
                            elif short == "map_or_else":
                                rr = self.apply(cx, f, args[1], () if isopt else (pl,), q2, stack)
                                out += [(k, q3, v3, fa2) for k, q3, v3 in rr]
                                continue
                            else:
                                v = mk(bad, pl)
                            out.append(("ret", q2, v, fa2))
                            continue
                        rr = self.apply(cx, f, clo, (pl,), q2, stack)
                        for k, q3, v3 in rr:
                            if k == "ret" and short == "map":
                                v3 = mk(good, v3)
                            elif k == "ret" and short == "inspect":
                                v3 = mk(good, pl)
                            elif k == "ret" and short == "filter":
                                out.append((k, q3, mk(bad, None), fa2))
                                v3 = mk(good, pl)
                            out.append((k, q3, v3, fa2))
                    elif short == "map_err":
                        if is_good:
                            out.append(("ret", q2, mk(good, pl), fa2))
                        else:
                            rr = self.apply(cx, f, clo, (pl,), q2, stack)
                            out += [(k, q3, mk(bad, v3) if k == "ret" else v3, fa2) for k, q3, v3 in rr]
                    elif short in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
                        if is_good:
                            out.append(("ret", q2, pl, fa2))
                        elif short == "unwrap_or":
                            out.append(("ret", q2, args[1], fa2))
                        elif short == "unwrap_or_default":
                            out.append(("ret", q2, None, fa2))
                        else:
                            rr = self.apply(cx, f, clo, () if isopt else (pl,), q2, stack)
                            out += [(k, q3, v3, fa2) for k, q3, v3 in rr]
                    elif short == "ok":
                        out.append(("ret", q2, some(pl) if is_good else NONE, fa2))
                    elif short == "err":
                        out.append(("ret", q2, NONE if is_good else some(pl), fa2))
                    elif short in ("ok_or", "ok_or_else"):
                        out.append(("ret", q2, ("agg", RES, 0, (pl,), 0) if is_good else ("agg", RES, 1, (None,), 1), fa2))
                    elif short in ("or_else", "or"):
                        if is_good:
                            out.append(("ret", q2, mk(good, pl), fa2))
                        elif short == "or":
                            out.append(("ret", q2, args[1], fa2))
                        else:
                            rr = self.apply(cx, f, clo, (), q2, stack)
                            out += [(k, q3, v3, fa2) for k, q3, v3 in rr]
                return out
            if short in ("take", "replace", "insert", "get_or_insert_with", "get_or_insert") and isopt:
                if short == "take":
                    return [("ret", q, a0)]
                if short == "replace":
                    return [("ret", q, None)]
                if short == "get_or_insert_with":
                    rr = self.apply(cx, f, args[1], (), q, stack)
                    return [("ret", q, None)] + [(k, q3, None) for k, q3, v3 in rr]
                return None
        if name in ("bool::then", "core::bool::then", "std::bool::then"):
            out = []
            r = self.refine(cx, a0, ("=", 0), fa, q)
            if r is not None:
                out.append(("ret", r[1], NONE, r[0]))
            r = self.refine(cx, a0, ("=", 1), fa, q)
            if r is not None:
                for k, q3, v3 in self.apply(cx, f, args[1], (), r[1], stack):
                    out.append((k, q3, some(v3) if k == "ret" else None, r[0]))
            return out
        if name == "bool::then_some":
            out = []
            r = self.refine(cx, a0, ("=", 0), fa, q)
            if r is not None:
                out.append(("ret", r[1], NONE, r[0]))
            r = self.refine(cx, a0, ("=", 1), fa, q)
            if r is not None:
                out.append(("ret", r[1], some(args[1]), r[0]))
            return out
        if name in ("std::mem::replace", "std::mem::take"):
            return [("ret", q, a0)]
        # Ranges with known bounds are counted through.
        if self.rule.indexed and short == "next" and a0 is not None and a0[0] == "agg" and a0[1] == "std::ops::Range":
            lo, hi = a0[3]
            if lo is not None and hi is not None and lo[0] == "i" and hi[0] == "i":
                if lo[1] >= hi[1]:
                    return [("ret", q, NONE, fa, False, a0)]
                return [("ret", q, some(lo), fa, False, a0[:3] + ((("i", lo[1] + 1), hi), None))]
        # Short arrays are walked element by element.
        if short in ("into_iter", "iter", "iter_mut") and a0 is not None and a0[0] == "agg" and a0[1] == "array":
            return [("ret", q, ("agg", "arrayiter", None, a0[3], None))]
        if short == "next" and a0 is not None and a0[0] == "agg" and a0[1] == "arrayiter":
            if not a0[3]:
                return [("ret", q, NONE, fa, False, a0)]
            return [("ret", q, some(a0[3][0]), fa, False, a0[:3] + (a0[3][1:], None))]
        return None

    def apply(self, cx, f, clo, cargs, q, stack):
        r = self.run_closure(clo, cargs, q, stack, f)
        if r is None:
            out = [("ret", q, None)]
            if clo is None or clo[0] not in ("fnitem",):
                if self.rule.user_unwinds(cx, None):
                    out.append(("unwind", q, None))
            elif clo[0] == "fnitem":
                x = self.rule.on_fnitem(cx, clo, cargs, q)
                if x is not None:
                    return x
            return out
        return list(r)

    # ---------------------------------------------------------------- drops
    def drop(self, cx, f, t, env, fa, q, pend, stack):
        p = t["drop"]
        v = self.read(f, env, p)
        cx.site = (f.id, cx.bb)
        for k, q2 in self.drop_value(cx, f, t["ty"], v, q, fa, stack):
            if k == "ret":
                e2 = dict(env)
                if len(p) == 1:
                    e2.pop(p[0], None)
                yield (t["t"], e2, fa, q2, pend)
            elif k == "unwind":
                if t["u"] >= 0:
                    yield (t["u"], dict(env), fa, q2, pend)
                elif t["u"] == -1:
                    yield ("out", "unwind", q2, None)

    def drop_value(self, cx, f, ty, v, q, fa, stack):
        """[(kind, q)] of dropping a value."""
        if ty is None:
            return [("ret", q)]
        T = self.F.types[ty]
        if v is not None and v[0] == "dead":
            return [("ret", q)]
        r = self.rule.on_drop(cx, T, v, q)
        if r is not None:
            return r
        glue = T.get("glue", [])
        if not glue:
            return [("ret", q)]
        interesting = [g for g in glue if g.get("id", -1) in self.interesting]
        user = any("user" in g for g in glue)
        if not user:
            user = any(g.get("id", -1) in self.F.fns and self.may_unwind(g["id"]) for g in glue)
        skip = False
        if "variants" in T or T["k"] == "adt" and T["adt"] in TWO:
            if v is not None and v[0] == "agg" and v[2] is not None:
                if not v[3]:
                    return [("ret", q)]
            else:
                cx.facts = fa
                kv = cx.variant(v)
                if T["adt"] == OPT and kv == 0:
                    return [("ret", q)]
                if T["adt"] == RES and kv is not None and T.get("a") and kv < len(T["a"]):
                    return self.drop_value(cx, f, T["a"][kv], ("fld", 0, ("dc", kv, v)), q, fa, stack)
                if not (T["adt"] == OPT and kv == 1):
                    skip = True
            if T["adt"] == RES and v is not None and v[0] == "agg" and T.get("a") and v[2] < len(T["a"]):
                return self.drop_value(cx, f, T["a"][v[2]], v[3][0], q, fa, stack)
        out = set()
        if skip:
            out.add(("ret", q))
        qs = {q}
        for g in interesting:
            adt = g["n"].split(" as ")[0].lstrip("<")
            sub = v if (T["k"] == "adt" and T["adt"] == adt) else find_agg(v, adt)
            if sub is None and v is not None and T["k"] == "adt" and T["adt"] in (OPT,) and v[0] != "agg":
                sub = cap(("fld", 0, ("dc", 1, v)))
            nq = set()
            for q1 in qs:
                gf = self.F.fns[g["id"]]
                for k, q2, _ in self.run(g["id"], (sub,) + (None,) * (gf.argc - 1), q1, stack + (f,)):
                    if k == "ret":
                        nq.add(q2)
                    elif k == "unwind":
                        out.add(("unwind", q2))
            qs = nq
        for q2 in qs:
            out.add(("ret", q2))
        if user and self.rule.drop_unwinds and self.rule.user_unwinds(cx, None):
            # A panicking destructor of the user's type: the rest of the glue has run.
            for q2 in qs:
                out.add(("unwind", q2))
        return list(out)


Rule.wants_use = False
Rule.drop_unwinds = True
Rule.wants_store = False
Rule.wants_read = False
Rule.on_store = lambda self, cx, target, v, q: q
Rule.closure_once = lambda self, cx, a: False
Rule.on_fnitem = lambda self, cx, clo, cargs, q: None


POOL = None


def run_one(fid):
    E, q = POOL
    E.memo.clear()
    E.rule.root = fid
    n = E.nstates
    r = E.run_root(fid, q)
    return fid, r, E.nstates - n, dict(E.rule.tallies()), E.reports, E.visited_fns
