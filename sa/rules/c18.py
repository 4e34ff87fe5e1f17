from rules.slots import part


def check(c):
    c.rule = ("on every path of every operation of a HashIndex bucket: the epoch of a removal is recorded before the slot is marked; only slots "
              "whose removal epoch was compared and is of another generation are given up; they cease to be occupied before they cease to be "
              "removed, and are dropped after that; a slot is published only when written; a moved entry is hidden only after it was published at "
              "its new place; each publication has release ordering; overflow buckets are not freed while readers may hold them")
    F, n, done = part(c, "C18", lambda kind, fl: kind == "O", [
        ("statements that mark a slot as occupied", "sets", 1), ("statements that mark a slot as free", "clears", 2),
        ("statements that mark an entry as removed", "removed", 1), ("filters of removed entries", "filters", 1), ("overflow buckets freed", "freed", 1)])
    c.floor("operations explored", len(done), 8)
