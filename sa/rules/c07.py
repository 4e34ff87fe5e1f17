"""Operations documented not to wait never reach a blocking or suspending primitive."""
import re

import facts
from rules.callgraph import BLOCK, SUSPEND, roots, sites, where

CONTAINERS = ["hash_map::HashMap", "hash_index::HashIndex", "hash_cache::HashCache", "hash_set::HashSet",
              "tree_index::TreeIndex"]
COMMON = ["len", "is_empty", "new"]
NAMES = {
    "hash_map::HashMap": COMMON + ["capacity", "capacity_range", "bucket_index", "reserve", "try_entry"],
    "hash_index::HashIndex": COMMON + ["capacity", "capacity_range", "bucket_index", "reserve", "try_entry", "peek",
                                       "peek_with", "contains", "iter"],
    "hash_cache::HashCache": COMMON + ["capacity", "capacity_range", "try_entry"],
    "hash_set::HashSet": COMMON + ["capacity", "capacity_range", "bucket_index", "reserve"],
    "tree_index::TreeIndex": COMMON + ["peek", "peek_with", "peek_entry", "contains", "iter", "range", "depth", "clear"],
}
ENTRY = {
    "hash_map": {"Entry": ["or_insert", "or_insert_with", "or_insert_with_key", "key", "and_modify", "insert_entry", "or_default"],
                 "OccupiedEntry": ["key", "remove_entry", "get", "get_mut", "insert", "remove"],
                 "VacantEntry": ["key", "into_key", "insert_entry"], "ConsumableEntry": ["consume"],
                 "Reserve": ["additional_capacity"]},
    "hash_cache": {"Entry": ["or_put", "or_put_with", "or_put_with_key", "key", "and_modify", "put_entry", "or_default"],
                   "OccupiedEntry": ["key", "remove_entry", "get", "get_mut", "put", "remove"],
                   "VacantEntry": ["key", "into_key", "put_entry"], "ConsumableEntry": ["consume"]},
    "hash_index": {"Entry": ["or_insert", "or_insert_with", "or_insert_with_key", "key", "and_modify", "or_default"],
                   "OccupiedEntry": ["key", "remove_entry", "get", "get_mut", "update"],
                   "VacantEntry": ["key", "into_key", "insert_entry"], "Reserve": ["additional_capacity"]},
    "hash_set": {"ConsumableEntry": ["consume"]},
}
TRAITS = ["<hash_index::Iter as std::iter::Iterator>::next", "<tree_index::Iter as std::iter::Iterator>::next",
          "<tree_index::Range as std::iter::Iterator>::next", "<hash_index::HashIndex as std::cmp::PartialEq>::eq",
          "<tree_index::TreeIndex as std::cmp::PartialEq>::eq", "<hash_index::HashIndex as std::ops::Drop>::drop",
          "<hash_map::HashMap as std::ops::Drop>::drop", "<hash_cache::HashCache as std::ops::Drop>::drop",
          "<tree_index::TreeIndex as std::ops::Drop>::drop", "<hash_map::Reserve as std::ops::Drop>::drop",
          "<hash_index::Reserve as std::ops::Drop>::drop", "<hash_index::HashIndex as serde::Serialize>::serialize",
          "<tree_index::TreeIndex as serde::Serialize>::serialize",
          "<hash_table::bucket_array::BucketArray as std::ops::Drop>::drop",
          "<hash_table::bucket::LinkedBucket as std::ops::Drop>::drop", "<tree_index::leaf::Leaf as std::ops::Drop>::drop"]
# Busy waiting on the state of a lock.
POLLS = re.compile(r"^saa::(\w+::)?Lock::is_(locked|free|shared)|^saa::\w+::is_(locked|free|shared)")


def table():
    out = ["%s::%s" % (t, m) for t, ms in NAMES.items() for m in ms]
    out += ["%s::%s::%s" % (mod, t, m) for mod, ts in ENTRY.items() for t, ms in ts.items() for m in ms]
    return out + TRAITS


def check(c):
    c.rule = ("from every operation documented as lock-free or non-waiting (and from the operations on an entry already "
              "held, and every destructor), the instance call graph - callees, closures, awaited futures, drop glue - is "
              "searched for a blocking primitive (saa *_sync, std::thread, std::sync, spin_loop), a suspending one (saa "
              "*_async) or a loop that polls the state of a lock; one obligation per operation and reached function")
    F = facts.load()
    rs, missing = roots(F, table())
    for m in missing:
        c.fail("missing:" + m, "the operation %s is not in the program any more" % m)
    n = 0
    funcs = set()
    for f in rs:
        par = F.reach(f.id)
        for x in par:
            g = F.fns[x]
            funcs.add(x)
            n += 1
            for rx, what in ((BLOCK, "blocks in"), (SUSPEND, "suspends in")):
                for i, name in sites(F, g, rx):
                    c.fail("%s>%s>%s" % (f.n, g.n, name), "%s %s %s, called by %s" % (f.n, what, name, g.n),
                           where(g, i), F.chain(par, x))
            poll = sites(F, g, POLLS)
            for i, name in poll:
                if any(i in b for h, b in g.loops()):
                    c.fail("%s>%s>%s" % (f.n, g.n, name), "%s polls a lock in a loop: %s in %s" % (f.n, name, g.n),
                           where(g, i), F.chain(par, x))
    c.count(n)
    c.floor("operations", len(rs), 90)
    c.floor("functions reached", len(funcs), 300)
    # The patterns are alive: the program blocks and suspends elsewhere.
    c.floor("blocking call sites elsewhere", sum(len(sites(F, g, BLOCK)) for g in F.fns.values()), 10)
    c.floor("suspending call sites elsewhere", sum(len(sites(F, g, SUSPEND)) for g in F.fns.values()), 8)
    for f in rs[:12]:
        c.sample({"operation": f.n, "functions reached": len(F.reach(f.id)), "blocking": 0, "suspending": 0})
