import facts
from rules.structure import explore


def part(c, which, floors):
    F = facts.load()
    R, E, bad, done = explore(F)
    for b in bad:
        if b[0].startswith(which + ":"):
            c.fail(b[0][3:], b[1], b[2], b[3] if len(b) > 3 else None)
    for what, k, least in floors:
        c.floor(what, len(R.n[k]), least)
        c.count(len(R.n[k]))
    c.floor("functions explored as roots", len(done), 20)
    c.floor("shapes of a split", len(R.shapes), 3)
    c.analysed["functions explored as roots"] = len(done)
    c.analysed["functions visited"] = len(E.visited_fns)
    c.analysed["abstract states"] = E.nstates
    c.assumptions.append("key comparison is a total order")
    for n in sorted({F.fns[i].n for i in done})[:40]:
        c.sample(n)
    return R


def check(c):
    c.rule = ("every statement that adds, removes or replaces a child of a node (or changes the record of a split) runs, on every path of every "
              "tree operation, while the lock of that node is held or while the node is not shared yet; a root is only replaced while it is "
              "locked")
    part(c, "23", [("changes of the structure of a node", "changes", 30), ("children removed", "removed", 4)])
