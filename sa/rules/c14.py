from rules.slots import part


def check(c):
    c.rule = ("on every path of every operation of a bucket: a slot is written only if it is free, becomes occupied only once written and ceases "
              "to be occupied exactly when its entry has been moved out or dropped, once; the length changes by as much as the number of live "
              "slots; overflow buckets are freed only when empty, and a new one keeps the chain")
    F, n, done = part(c, "C14", lambda kind, fl: True, [
        ("statements that mark a slot as occupied", "sets", 3), ("statements that mark a slot as free", "clears", 4),
        ("moves of entries", "moved", 2), ("drops of entries", "dropped", 2), ("changes of the length", "len", 4), ("overflow buckets freed", "freed", 2)])
    c.floor("operations explored", len(done), 22)
