from rules.slots import part


def check(c):
    c.rule = ("on every path of a step of an iteration over a bucket: the slot visited is the first live one (in a HashIndex: removed bitmap read "
              "before the occupied one, both with acquire ordering) behind the one visited before, or the first live one of the next overflow "
              "bucket once none is left; it ends only behind the last overflow bucket, and stays ended; when an overflow bucket is freed, the "
              "pointer to the entry removed from it moves to the next one")
    F, n, done = part(c, "C16", lambda kind, fl: "iterate" in fl or "pointer" in fl, [
        ("ways to find an entry", "found", 3), ("ways to find none", "absent", 3)])
    c.floor("operations that move a pointer", len(done), 6)
