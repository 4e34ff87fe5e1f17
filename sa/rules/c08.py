"""No future of the asynchronous interface blocks the thread that polls it."""
import re

import facts
from engine import Engine, Rule
from facts import cname
from rules.callgraph import BLOCK, sites, where

FRESH = re.compile(r"^sdd::Shared::(new|new_unchecked|new_with|new_with_unchecked)$")
THROUGH = re.compile(r"^sdd::(Shared|Owned)::(get_mut|get_ref|get_guarded_ref)")
ACQ = re.compile(r"^saa::(\w+::)?Lock::try_\w+$")


def base_fresh(v):
    """The allocation a place belongs to (through fields of it only)."""
    while v is not None and (v[0] in ("fld", "dc", "elem") or v[0] == "call" and THROUGH.match(v[1])):
        v = v[2] if v[0] in ("fld", "dc") else v[1] if v[0] == "elem" else (v[2][0] if v[2] else None)
    if v is not None and v[0] == "call" and FRESH.match(v[1]):
        return v[3]
    return None


class Blocks(Rule):
    tracked = re.compile(FRESH.pattern + "|" + THROUGH.pattern)

    def events(self):
        self.n = 0
        return [f.id for f in self.F.fns.values() if sites(self.F, f, BLOCK)]

    def on_call(self, cx, c, args, q):
        n = cname(c)
        if FRESH.match(n):
            return [("ret", q, ("call", n, (), cx.site))]
        if ACQ.match(n):
            s = base_fresh(args[0])
            if s is not None:
                return [("ret", q, ("i", 1))]
            return [("ret", q, ("i", 0)), ("ret", q, ("i", 1))]
        if BLOCK.search(n):
            self.n += 1
            s = base_fresh(args[0]) if args else None
            if s is None:
                self.E.report(cx, "%s>%s" % (cx.f.n, n), "%s blocks the polling thread in %s" % (cx.stack[0].n if cx.stack else cx.f.n, n))
            return [("ret", q, None)]
        return None


def check(c):
    c.rule = ("from every async operation the instance call graph is searched for a blocking primitive (saa *_sync, "
              "Pager::poll_sync, std::thread, std::sync, spin_loop); where one is reachable, all paths are interpreted with "
              "allocation provenance: locking a node the operation has itself allocated does not "
              "wait; anything else is a violation; one obligation per operation and reached function")
    F = facts.load()
    n, funcs, roots_, deep = 0, set(), [], []
    for f in F.roots():
        if not (f.asy and f.pub):
            continue
        roots_.append(f)
        par = F.reach(f.id)
        n += len(par)
        funcs |= set(par)
        hits = [(x, i, name) for x in par for i, name in sites(F, F.fns[x], BLOCK)]
        if not hits:
            continue
        deep.append(f)
        r = Blocks(F)
        E = Engine(F, r)
        E.run_root(f.id, ())
        n += r.n
        for k, v in E.reports.items():
            c.fail("%s>%s" % (f.n, k), "%s" % v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
        c.sample({"operation": f.n, "blocking sites reached": len(hits), "abstract states": E.nstates,
                  "contexts in which one is called": r.n, "on unpublished objects": r.n})
    c.count(n)
    c.floor("async operations", len(roots_), 56)
    c.floor("functions reached", len(funcs), 400)
    c.floor("blocking call sites in the program", sum(len(sites(F, g, BLOCK)) for g in F.fns.values()), 10)
    c.analysed["operations interpreted path by path"] = len(deep)
    for f in roots_[:10]:
        c.sample({"operation": f.n, "functions reached": len(F.reach(f.id)), "blocking": 0})
