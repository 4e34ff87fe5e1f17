"""Locks of the tree: none is left behind by any operation, on any path."""
import engine
import facts
from engine import Engine
from facts import cname
from rules.tree import NODE, NODES, TreeLocks, peel


def split_fields(F):
    """Field names of the split records, by node type."""
    out = {}
    for t in F.types:
        if t["k"] == "adt" and t["adt"] in NODES and t["adt"] != NODE:
            for fs in t["fields"]:
                for name, ft in fs:
                    T = F.types[ft]
                    if "StructuralChange" in F.ts(ft) and T["k"] == "adt":
                        out.setdefault(t["adt"], set()).update(n for n, _ in T["fields"][0])
    return out


def explore(F, c, rule):
    R = rule(F)
    engine.MAXDEPTH[0] = 16
    E = Engine(F, R, 3000000)
    sf = split_fields(F)
    payload = next([F.types[fs[0][1]]["adt"] for fs in t["fields"]] for t in F.types if t["k"] == "adt" and t["adt"] == NODE)
    done = []

    def run(fid, q, args=None):
        R.root = fid
        E.memo.clear()
        done.append(fid)
        return E.run_root(fid, q, args)

    def left(fid, kind, q, ok=frozenset()):
        f = F.fns[fid]
        c.count(1)
        if q[0] - ok:
            c.fail("left:%s:%s" % (f.n, kind), "%s %s with the lock of a node still held: nobody releases it, and the node can never be "
                   "changed again" % (f.n, {"ret": "returns", "unwind": "unwinds out of a panic of the user's code",
                                            "cordrop": "is dropped while suspended"}[kind]), f.sp)

    full = R.variants.index("Full") if "Full" in R.variants else -1
    for fid in sorted(R.inserts):
        f = F.fns[fid]
        n = 0
        for kind, q, v in run(fid, R.Q0):
            res = v[3][0] if v is not None and v[0] == "agg" and v[2] == 0 and v[3] else None
            if kind == "ret" and (v is None or v[0] != "agg" or v[2] == 0 and (res is None or res[0] != "agg")):
                c.fail("opaque:%s" % f.n, "cannot tell whether %s reports a full node" % f.n, f.sp)
            elif kind == "ret" and res is not None and res[2] == full:
                n += 1
                sub = {("arg", 0)} | R.inside(q, ("arg", 0))
                left(fid, kind, q, sub)
                if ("arg", 0) not in q[0]:
                    c.fail("unlocked:%s" % f.n, "%s reports a full node that it does not keep locked: its parent splits it while others "
                           "change it" % f.n, f.sp)
                else:
                    R.shape(q, ("arg", 0), sub)
            else:
                left(fid, kind, q)
        c.floor("paths of %s that hand over a full node" % f.n, n, 1)
    for fid in sorted(R.neutral):
        for kind, q, v in run(fid, R.Q0):
            left(fid, kind, q)
    reached = F.callers_closure(R.events())
    roots = [r.id for r in F.roots() if r.id in reached and r.id not in R.inserts and r.id not in R.neutral and r.id not in R.consumes
             and "Locker" not in r.n]
    for fid in sorted(roots):
        for kind, q, v in run(fid, R.Q0):
            left(fid, kind, q)
    # Commit and rollback, from every shape of a node in the middle of a split.
    for fid, what in sorted(R.consumes.items()):
        todo, seen = set(R.shapes), set()
        while todo - seen:
            sh = min(todo - seen, key=repr)
            seen.add(sh)
            names = {p[1] for p, _ in sh[2] if p[2][2] == ("arg", 0)}
            for k, adt in enumerate(payload):
                if names - sf.get(adt, set()):
                    continue
                a = ("agg", NODE, k, (("arg", 0),), k)
                for kind, q, v in run(fid, sh, (a,) + tuple(("arg", i) for i in range(1, F.fns[fid].argc))):
                    # The halves that were never published are garbage now, locked or not.
                    left(fid, kind, q, {t for t in q[0] if R.fresh(t)} if what == "rollback" else frozenset())
            todo |= R.shapes
    # The guard types themselves.
    n = 0
    for f in F.fns.values():
        if f.argc < 1 or not f.n.startswith(("tree_index", "<tree_index")):
            continue
        t = F.ts(f.locals[1][0])
        if peel(t) not in R.guards or t.startswith("&") and not t.startswith("&mut"):
            continue
        n += 1
        g = ("agg", peel(t), None, (("arg", 0),), None)
        drops = f.n.endswith("as std::ops::Drop>::drop")
        q0 = (frozenset([("arg", 0)]) if drops else frozenset(), frozenset() if drops else frozenset([("arg", 0)])) + R.Q0[2:]
        for kind, q, v in run(f.id, q0, (g,) + tuple(("arg", i) for i in range(1, f.argc))):
            left(f.id, kind, q)
            if not drops and kind == "ret" and ("arg", 0) in q[1] and v is None and not t.startswith("&"):
                c.fail("kept:%s" % f.n, "%s consumes the guard of a node and leaves it locked" % f.n, f.sp)
    c.floor("functions that consume a guard of a node", n, 3)
    for k, r in sorted(E.reports.items()):
        c.fail(k, "%s %s" % (r["fn"], r["msg"]), r["span"], r["chain"])
    return R, E, done


def check(c):
    c.rule = ("on every path of every tree operation (return, retry, panic of the user's code, dropped future) each node lock that was taken "
              "is owned by a guard, released, or handed over together with the report of a full node; commit and rollback release "
              "every lock of a split, whatever stage it reached, and a node that was replaced is poisoned, not unlocked")
    F = facts.load()
    R, E, done = explore(F, c, TreeLocks)
    c.floor("acquisitions", len(R.counts["acquired"]), 4)
    c.floor("releases", len(R.counts["released"]), 5)
    c.floor("contract call sites", len(R.counts["contracts"]), 4)
    c.floor("shapes of a split", len(R.shapes), 3)
    kinds = set(R.consumes.values())
    c.ob(kinds == {"commit", "rollback"}, "kinds", "the tree has no function that %s" %
         " and no function that ".join({"commit": "commits a split", "rollback": "rolls a split back"}[k] for k in
                                       {"commit", "rollback"} - kinds))
    c.analysed["functions explored as roots"] = len(done)
    c.analysed["functions visited"] = len(E.visited_fns)
    c.analysed["abstract states"] = E.nstates
    c.assumptions.append("destructors of the user's keys and values do not panic")
