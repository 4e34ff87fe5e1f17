from rules.leaf import part


def check(c):
    c.rule = ("on every path of every operation that reads a leaf of the tree, for every slot of the leaf: the entry returned is the one asked for among "
              "all slots the metadata says are in use, no slot is left out without its rank having put it on one side of the key, and only such slots "
              "are looked at")
    part(c, "C29", [("comparisons of keys", "compared", 4), ("references made to keys and values", "looks", 6)])
