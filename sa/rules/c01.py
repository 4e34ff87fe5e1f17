"""Bucket locks: taken, owned, released exactly once, in the right mode, on every path."""
import facts
import engine
from engine import Engine
from rules.locks import DROPFN, Ranges, Releases, Tokens, base_of, counters, creates, exits, guard_types


def tree(f):
    return "tree_index" in f.n or "TreeIndex" in f.n


def check(c):
    c.rule = ("every path (normal, unwinding, dropped future) of every public hash-table operation is interpreted with lock "
              "tokens: a lock taken is owned by a guard of the same mode or released before the path ends, a guard is made "
              "only from a lock that is held, a leaked guard is recovered on every exit, a poisoned lock's guard is "
              "forgotten, and a guard's destructor releases exactly once")
    F = facts.load()
    guards = {k: v for k, v in guard_types(F).items() if "tree_index" not in k}
    for k, v in guards.items():
        c.ob(len(v) == 1, "guard:" + k, "%s releases its lock in more than one mode: %s" % (k, v), k,
             sample={"guard": k, "mode": sorted(v)})
    c.ob({"excl", "share"} <= set().union(set(), *guards.values()), "guard modes", "an exclusive and a shared guard exist no more")
    r = Tokens(F, guards)
    E = Engine(F, r, max_states=4000000)
    roots, n = 0, 0
    for f in F.roots():
        if tree(f) or f.id not in E.interesting:
            continue
        m = DROPFN.match(f.n)
        if m and m.group(1) in guards:
            continue
        roots += 1
        n += exits(c, f, E.run_root(f.id, ((), 0, 0)))
    for k, v in E.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    for name in r.idle:
        c.ob(name in r.busy, "idle:" + name, "%s makes guards of buckets that are never locked on the way to it" % name, name)
    # Destructors of the guards.
    R = Releases(F)
    D = Engine(F, R)
    drops = 0
    for f in F.fns.values():
        m = DROPFN.match(f.n)
        if m and m.group(1) in guards:
            drops += 1
            for kind, q, v in D.run_root(f.id, 0):
                if kind == "ret":
                    c.ob(q == 1, "drop:%s" % f.n, "%s releases its lock %s on some path" % (f.n, "never" if q == 0 else "more than once"), f.n)
    # What is recovered is what was leaked.
    G = Ranges(F, guards)
    X = Engine(F, G)
    engine.MAXDEPTH[0] = 12
    leakers = [f for f in F.fns.values() if not tree(f) and G.forgets(f)]
    counted = 0
    for f in leakers:
        for g in [g for g in F.fns.values() if f.id in creates(g)] or [f]:
            X.run_root(g.id, (0, None, None))
        counted += counters(F, f, guards, lambda k, m, w: c.fail(k, m, "%s (%s)" % (w, f.n)))
    engine.MAXDEPTH[0] = 7
    for f in F.fns.values():
        if not tree(f) and "{closure" in f.n:
            base_of(F, f, G, lambda k, m, w: c.fail(k, m, "%s (%s)" % (w, f.n)))
    for k, v in X.reports.items():
        c.fail(k, v["msg"], "%s (%s)" % (v["span"], v["fn"]), v["chain"])
    c.count(len(G.compared) + counted)
    c.analysed["leaks counted in an exit guard"] = counted
    c.analysed["recoveries compared with the leak"] = len(G.compared)
    c.count(n)
    c.analysed["abstract states"] = E.nstates
    c.floor("operations interpreted", roots, 150)
    c.floor("guard destructors", drops, 6)
    for k, least in (("acquired", 12), ("guards built", 8), ("released", 4), ("leaked", 6), ("poisoned", 2), ("recovered", 2)):
        c.floor("sites: " + k, len(r.counts[k]), least)
        c.sample({"event": k, "sites": len(r.counts[k])})
