from rules.slots import part


def check(c):
    c.rule = ("on every path of every search of a bucket: an entry is compared only if its slot is occupied (and, in a HashIndex, not removed); a "
              "slot is left out only if its partial hash differs; the search ends without a result only once every candidate of the bucket and of "
              "every overflow bucket was compared; the result is the entry whose key was found equal")
    F, n, done = part(c, "C15", lambda kind, fl: "lookup" in fl, [
        ("ways to find an entry", "found", 5), ("ways to find none", "absent", 5), ("slots left out", "filters", 2)])
    c.floor("searches explored", len(done), 5)
