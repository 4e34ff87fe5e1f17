from rules.leaf import part


def check(c):
    c.rule = ("on every path of every operation that changes a leaf of the tree, for every slot of the leaf: a slot is reserved only if it is free and "
              "the leaf is open, holds key and value before it becomes reachable, gets the rank between the next smaller and the next greater key, is "
              "given back or published exactly once, and is removed only if its key is the one looked for and the condition accepted it; the last "
              "removal retires the leaf; what is returned says what was done")
    part(c, "C28", [("changes of the metadata", "changes", 5), ("reservations", "reserves", 1), ("publications", "publishes", 1),
                    ("slots given back", "rollbacks", 1), ("removals", "removals", 1), ("writes of keys and values", "writes", 4),
                    ("keys and values taken out", "takes", 4), ("comparisons of keys", "compared", 3)])
