NOTES = ("Every check compiles /repo's current tree (through a rustc driver that dumps the resolved, monomorphic MIR of every "
         "reachable function, or through the type checker with witness programs) and decides its property from that; no code "
         "of the crate is run.  A clean exit prints the number of obligations decided.  See DESIGN.md.")
STATIC = "The analysis is static: it covers every path of the compiled program, not the ones a test happens to drive. "

prop("C03", "Async operations never follow a reference reclaimed while they were suspended",
     "When an asynchronous operation on a hash container waits for a bucket, it holds no epoch guard, so any bucket array it had "
     "loaded may be replaced and reclaimed meanwhile.  After resuming, it reads such an array (its fields, buckets or links) only if "
     "something kept the array alive throughout the wait (the lock of one of its buckets, or a rehashing claim), or after showing "
     "it to be current again: by acquiring the lock of one of its live buckets, or by comparing it with a fresh load.  An array "
     "that was pinned when a guard was taken stays readable only until that guard is reset at the next wait.",
     ["schedules", "inputs"], "every control-flow path of every public asynchronous hash-table operation, every sequence of immediate and suspended waits",
     "The stale read happens only if another thread finishes a resize and the epoch advances while the task is suspended; even then "
     "freed memory usually still holds the old values.",
     ["src/hash_table.rs", "src/async_helper.rs", "src/hash_table/bucket.rs"],
     [("AsyncGuard::reset from lock_async_with's closure; has_guard / check_ref validation", "src/hash_table.rs: dedup_bucket_async, for_each_*_async; src/async_helper.rs"),
      ("a guard is taken before the lock or claim that pinned an array is given up", "src/hash_table.rs: relocate_bucket_async, incremental_rehash_async")],
     "path-sensitive provenance and epoch typestate analysis (which loads are still protected) on MIR, across awaits",
     "An array address that was reused (ABA) counts as re-validated, as in the code's own argument; sdd's epoch guarantees and saa's "
     "locks are trusted; the asynchronous operations of the tree take their guard in a scope that ends before each wait (decided by C04 and the borrow checker).")

prop("C04", "Futures of the asynchronous interface can move between threads",
     "Every future returned by the asynchronous interface of the five containers and of their entries is Send whenever the "
     "key, value, hasher, query and closure types are, so it can be spawned on a multi-threaded executor and resumed on "
     "another thread.",
     ["programs"], "every user program: all key, value, hasher, query and closure types meeting the bounds",
     "The tests spawn a few futures with concrete types; remove_and_async of HashIndex was never spawned and was not Send.",
     ["src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs", "src/hash_set.rs", "src/tree_index.rs", "src/async_helper.rs"],
     [("no epoch guard is held across an await; AsyncGuard is reset before suspending", "src/async_helper.rs, src/hash_table/bucket.rs")],
     "type-level witness: generic Send proof of every public future, compiled against the current crate",
     "The compiler proves the bound for every instantiation; trusts rustc and the unsafe Send impl of AsyncGuard (whose use is C03's subject).")

prop("C05", "Containers and guards cross threads only with thread-safe contents",
     "A container, an entry, an iterator or a reservation can be sent to or shared with another thread only if the key, "
     "value and hasher types allow it: with a key, value or hasher that is not Send (or not Sync), the program that would "
     "move or share them across threads does not compile.",
     ["programs"], "every user program; 96 program pairs that cover each public type times each parameter times Send/Sync",
     "A program that must not compile cannot be a unit test of the crate; the tests only use thread-safe types.",
     ["src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs", "src/hash_set.rs", "src/tree_index.rs", "src/hash_table/bucket.rs",
      "src/hash_table/bucket_array.rs", "src/async_helper.rs"],
     [("auto traits and the hand-written Send/Sync impls of the internal types", "src/hash_table/bucket.rs, src/hash_table/bucket_array.rs, src/tree_index/leaf.rs")],
     "compile-fail witnesses with compiling twins",
     "Each pair is decided by the type checker on the current crate; other ways of leaking a non-thread-safe value are not enumerated.")

prop("C06", "References into a container never outlive what protects them",
     "A reference, entry, iterator, future or reservation obtained from a container cannot be used after the container, the "
     "entry or the epoch guard that keeps it valid is gone, exclusive access is really exclusive, and an entry that was "
     "removed or consumed cannot be used again: every program that tries does not compile.  Epoch-reclaimed containers "
     "accept only 'static keys and values where they defer their destruction.",
     ["programs"], "every user program; 78 program pairs over the public types and methods that hand out borrows",
     "A program that must not compile cannot be a unit test of the crate.",
     ["src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs", "src/hash_set.rs", "src/tree_index.rs"],
     [("lifetimes in the signatures, PhantomData, by-value receivers, 'static bounds", "public impl blocks")],
     "compile-fail witnesses with compiling twins",
     "Each pair is decided by the borrow checker on the current crate; signatures without a witness are not covered.")

prop("C07", "Lock-free reads and queries never wait",
     "Looking up, peeking at or iterating over a HashIndex or TreeIndex through the guard-based readers, asking any container "
     "for its length or capacity, try_entry, reserve, working on an entry already held, and dropping anything never block the "
     "calling thread on another thread, never suspend and never poll a lock.",
     ["schedules", "inputs"], "every schedule and every state of the other threads, including threads stopped while holding any lock",
     "A test cannot stop a lock holder at every point and conclude that a reader does not wait for it.",
     ["src/hash_table.rs", "src/hash_index.rs", "src/tree_index.rs", "src/tree_index/node.rs", "src/tree_index/leaf_node.rs",
      "src/tree_index/internal_node.rs", "src/tree_index/leaf.rs", "src/hash_table/bucket.rs"],
     [("readers take no lock; try_ paths pass TRY_LOCK", "src/hash_table.rs: peek_entry, try_reserve_bucket, incremental_rehash_sync")],
     "call-graph effect analysis on resolved, monomorphic MIR",
     "Sound for the listed primitives (saa, std::thread, std::sync, spin hints) through callees, closures, awaited futures and drop "
     "glue; user callbacks and retry loops on changed data are out of scope.")

prop("C08", "Futures never block the thread that polls them",
     "No asynchronous operation of any container blocks the polling thread on a lock held by someone else: it reaches a "
     "blocking primitive only on objects it has itself allocated.",
     ["schedules", "inputs"], "every schedule, every state of other threads and tasks",
     "Blocking shows only when the executor is starved at the right moment; the tests run few tasks on several threads.",
     ["src/hash_table.rs", "src/hash_table/bucket.rs", "src/tree_index.rs", "src/tree_index/node.rs", "src/tree_index/leaf_node.rs",
      "src/tree_index/internal_node.rs", "src/async_helper.rs"],
     [("async variants await the lock, tree operations register a pager and retry", "src/async_helper.rs: TryWait")],
     "call-graph effect analysis plus path-sensitive allocation provenance on MIR",
     "Sound for the listed primitives; a lock of a node allocated by the same operation is taken to be free.")

prop("C01", "Every bucket lock is given back exactly once, however the operation ends",
     "Whatever a hash container operation does to a bucket lock is undone by the time it ends: each lock it takes is released "
     "exactly once and in the mode it was taken (or handed to the entry, iterator or guard it returns, whose destructor "
     "releases it), whether the operation returns, panics in user code, or its future is dropped while suspended.  A lock "
     "that is not held is never released, a failed lock attempt never yields a guard, and a bucket that was emptied for good "
     "is poisoned instead of unlocked.",
     ["schedules", "inputs"], "every control-flow path of every public hash-table operation: normal, unwinding, and dropped at any await",
     "A lock that is not returned on a failure, panic or cancellation path only shows when another thread later needs that bucket; "
     "the tests do not drop futures or panic at those points.",
     ["src/hash_table.rs", "src/hash_table/bucket.rs", "src/exit_guard.rs"],
     [("Writer and Reader own a bucket lock; forget + from_bucket move it to an ExitGuard", "src/hash_table.rs: relocate_bucket_*, try_resize"),
      ("kill poisons", "src/hash_table/bucket.rs: Writer::kill")],
     "path-sensitive typestate analysis (lock tokens) on resolved, monomorphic MIR with function summaries",
     "Covers every abstract path including unwinding and coroutine drops; the number of iterations of a loop over buckets is "
     "abstracted (its ranges are compared symbolically), and saa's own correctness is trusted.")

prop("C12", "A resize runs once, ends after it is done, and its claim never leaks",
     "A hash container's published bucket array is replaced or taken out by a shared-reference operation only after that operation "
     "has set the resize marker (which admits one holder at a time) and has confirmed that no older array is still linked to the "
     "current one and, with the marker set, that the array it examined is still the current one.  The operation that set the marker, "
     "and no other, clears it, exactly once and on every way out, panics included.  The marker is never visible in a capacity that "
     "is reported to the user, compared or computed with.",
     ["schedules", "inputs"], "every control-flow path of every public hash-table operation, in every state of the other threads",
     "A second resizer has to slip in between two instructions, and a marker left behind (or read by a concurrent capacity query) "
     "shows only if another thread looks at that moment.",
     ["src/hash_table.rs", "src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs"],
     [("top bit of minimum_capacity = resize marker; ExitGuard clears it", "src/hash_table.rs: try_resize, reserve_capacity, minimum_capacity"),
      ("re-validation of the bucket array after setting the marker", "src/hash_table.rs: try_resize")],
     "interprocedural taint analysis of the capacity word plus path-sensitive typestate analysis of the marker on MIR",
     "The first array of an empty container is published by compare-and-swap from null and needs no marker; the size the array is "
     "resized to is not decided here.")

prop("C13", "Reserved capacity is accounted for exactly and respected by every resize",
     "reserve raises the minimum capacity by exactly the amount the returned reservation reports, only when the sum stays within the "
     "maximum capacity, and leaves the minimum unchanged when it returns None or panics; dropping the reservation takes exactly "
     "that amount back, once; nothing else lowers or overwrites the minimum.  A bucket array is installed only with a size computed "
     "to be no less than the minimum capacity, and taken out only if the minimum was seen to be 0.",
     ["schedules", "inputs"], "every control-flow path of reserve, of the reservation's destructor and of every operation that allocates or resizes",
     "Accounting drifts only when reservations race with each other or with resizes, or when the allocation fails.",
     ["src/hash_table.rs", "src/hash_map.rs", "src/hash_index.rs"],
     [("compare-and-swap on minimum_capacity; Reserve", "src/hash_table.rs: reserve_capacity; src/hash_map.rs, src/hash_index.rs: Reserve"),
      ("sizes take the maximum with minimum_capacity", "src/hash_table.rs: try_resize, allocate_bucket_array")],
     "path-sensitive symbolic value flow (linear forms of the capacity word, pending amount) on MIR",
     "Checked and wrapping arithmetic are treated alike (the bound check is what keeps them equal); whether the array's own size "
     "computation honours the requested size (rounding up) is trusted.")

prop("C27", "Mutation needs the exclusive lock; what a lock showed is not used after it",
     "The slots, bitmaps, counters, overflow chain and LRU list of a bucket change only while the changing thread holds that bucket's "
     "exclusive lock (or owns the whole array), never under a shared lock or without one.  In the containers whose readers lock "
     "(HashMap, HashSet, HashCache), a reference to an entry is not used any more once the operation has released the lock under "
     "which it was obtained.",
     ["schedules", "inputs"], "every store to bucket state and every call path that reaches it; every reference obtained under a bucket lock",
     "A change under the wrong lock is a data race that corrupts the bucket only when two threads are inside it at once.",
     ["src/hash_table/bucket.rs", "src/hash_table.rs", "src/hash_cache.rs"],
     [("mutating methods of Bucket take &self; callers reach them through Writer's Deref", "src/hash_table/bucket.rs, src/hash_table.rs: LockedBucket"),
      ("search_entry and EntryPtr::get return references with an unbound lifetime", "src/hash_table/bucket.rs")],
     "interprocedural provenance (capability) analysis plus intra-procedural liveness of guards and borrowed references on MIR",
     "Which bucket a guard holds is decided by C01 (recovered guards) and C10 (bucket and data block of the same index); relocation "
     "targets count as locked after the leaking loop that C01 checks.")

prop("C10", "A key never has two entries, and an entry is found where its hash says",
     "An operation adds an entry for a key only after it searched, under the same exclusive bucket lock and without releasing it since, "
     "the bucket that the key's hash selects and did not find the key; key and hash are the ones it searched with, and every operation "
     "selects the bucket (and the data block of the same bucket) in the same way.  A vacant entry stands for such a failed search.  "
     "HashIndex replaces a value by adding the new version before the old one is marked removed, both under one lock, so that "
     "a reader always finds one of them and no two stay.",
     ["schedules", "inputs"], "every control-flow path of every public hash-table operation and entry method",
     "A duplicate needs another insertion of the same key between the search and the insertion; a vanished entry needs a reader between two stores.",
     ["src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs", "src/hash_table.rs"],
     [("search then insert on one LockedBucket", "src/hash_map.rs: insert_sync, entry_sync; src/hash_index.rs: OccupiedEntry::update"),
      ("bucket_index; LockedBucket{writer, data_block}", "src/hash_table.rs: writer_sync; src/hash_table/bucket_array.rs: bucket_index")],
     "path-sensitive typestate analysis with symbolic keys, hashes and bucket indexes on MIR",
     "Entries moved by a resize are not covered (C11, C14); that the search itself finds a present entry is trusted.")

prop("C02", "No tree operation leaves a node locked; a replaced node never changes again",
     "Whatever a TreeIndex operation does to the locks of tree nodes is undone by the time it ends, by returning, by retrying, by a panic "
     "of the user's comparison or clone, or because its future is dropped: each lock it took is released once, or owned by a guard whose "
     "destructor releases it, or handed to the parent together with the report that the node is full and has to be split.  "
     "Commit and rollback release every lock of a split whatever stage it reached, commit is used only once the node has been "
     "replaced and rollback only before that, and a node that was replaced by its halves is poisoned, so that no operation that still "
     "waits for it changes it; no task awaits while it holds the lock of a node.",
     ["schedules", "inputs"], "every control-flow path of every tree operation, every depth of the recursion (by contracts), every stage of a split",
     "The lock of a node is left behind, or a replaced node changed, only when a split meets a busy parent, an allocation or "
     "clone panics half-way, or another thread waited for exactly that node.",
     ["src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/tree_index/node.rs", "src/tree_index.rs"],
     [("lock / try_lock, exit guards, forget on Full", "src/tree_index/leaf_node.rs: split_leaf; src/tree_index/internal_node.rs: split_node"),
      ("commit, rollback, poison_lock", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs"),
      ("Locker and its Drop", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs")],
     "path-sensitive ownership analysis of lock tokens (through guards, split records and replaced pointers), with recursion contracts, on MIR",
     "Destructors of keys and values are assumed not to panic.  The recursion is cut at Node::insert, commit and rollback, whose "
     "contracts are proved for leaf nodes and internal nodes in turn; saa's Lock is trusted.")

prop("C23", "The children of a tree node change only under the lock of that node",
     "In a TreeIndex, a child of a leaf node or internal node is added, removed, replaced or copied into another node, and the record of "
     "an unfinished split is changed, only while the changing thread holds the lock of that node or is the only one that knows "
     "the node; the root is replaced or dropped only while the old root is locked.  (Installing the very first child or root of an "
     "empty place by compare-and-swap from null is the exception.)",
     ["schedules", "inputs"], "every control-flow path of every tree operation, every depth of the recursion (by contracts)",
     "Two splits or merges of the same node have to overlap for the damage to happen.",
     ["src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/tree_index/node.rs"],
     [("Locker::try_lock, lock.try_lock in split_*", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs"),
      ("cleanup_root locks the old root", "src/tree_index/node.rs: cleanup_root")],
     "path-sensitive lockset analysis with symbolic node identities and recursion contracts on MIR",
     "Which node a lock belongs to is the ownership analysis of C02; entries of a leaf (keys and values) are changed without locks by "
     "design and are not covered here.")

prop("C24", "Restructuring the tree never hides an entry or shows it twice",
     "While leaves and nodes of a TreeIndex are split, merged, removed or replaced, every entry stays reachable and is seen once: an operation that "
     "found a child by key uses it only if the metadata it searched with is still the current one after it loaded the "
     "child; a full leaf is frozen before its entries are copied and it and its copies are never both changeable or, once settled, both "
     "in the linked list; new leaves are linked in key order and behind a mark; a full child is replaced by its upper half only after the lower half "
     "can be found; the key of a child is removed only when the child is retired, already moved, or covered by the range to remove, "
     "and its pointer is cleared only after its key; a child that takes another's place can be found there before its old key goes; an "
     "aborted split takes the new leaves out (upper half first) before the old leaf can change; an emptied node is marked retired.",
     ["schedules", "inputs"], "every control-flow path of every tree operation, including panics of the user's clone and comparison and splits aborted at any stage",
     "A reader, iterator or writer has to look between two particular stores of a split, merge or range removal.",
     ["src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/tree_index/node.rs", "src/tree_index/leaf.rs"],
     [("metadata validation", "src/tree_index/leaf_node.rs: search_entry, insert, remove_if, min, max_le_appr; src/tree_index/internal_node.rs"),
      ("freeze, push_back(mark), insert low, delete_self, thaw, swap high", "src/tree_index/leaf_node.rs: split_leaf, commit, rollback"),
      ("coalesce, remove_range", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs")],
     "path-sensitive typestate analysis (frozen, linked, deleted, confirmed, moved, removed facts about symbolic leaves and entries) on MIR",
     "The order in which stores become visible to other threads is not decided here; which of the two "
     "halves an entry is copied to is trusted (ranks: C28, C29); iterators' key comparison after a jump is not covered.")

prop("C28", "A leaf of the tree never loses, doubles or misorders an entry",
     "Whatever the operations on a leaf of a TreeIndex and however they interleave: an insertion reserves only a slot that was free while the leaf was "
     "neither frozen nor retired, and the slot becomes reachable only once its key and value are written, only if every key in the leaf was found different "
     "from the new one, and with a rank right behind the greatest smaller key while every entry with a greater key moves up by one and nothing else "
     "changes; otherwise key and value are taken out once and the slot is given back.  A removal marks exactly the slot that holds the key, after the "
     "condition accepted its value, not in a frozen leaf, and retires the leaf exactly if no other entry is left.  What is returned "
     "(added, duplicate, full, frozen, retired, removed, not there) is what happened.  A slot that was ever filled is dropped once with the leaf.",
     ["schedules", "inputs"], "every path of insert, remove_if, remove_range, insert_unchecked, freeze, thaw and drop of a leaf, every slot, every failure of a "
     "compare-and-swap, and panics of comparison and condition",
     "The wrong rank or a reused slot needs a particular permutation of ranks, often with another thread changing the leaf between two instructions.",
     ["src/tree_index/leaf.rs"],
     [("reservation, post_insert, rollback", "src/tree_index/leaf.rs: insert, post_insert, rollback"),
      ("removal and retirement", "src/tree_index/leaf.rs: remove_if, remove_range"), ("content of used slots dropped", "src/tree_index/leaf.rs: Drop for Leaf")],
     "abstract interpretation of MIR over a relational domain for the ranks packed in the metadata word: one symbolic slot against every other",
     "Leaves are analysed with 4 to 14 slots instead of 14 (the code is parametric in DIMENSION); keys are assumed to be ordered consistently (Ord). "
     "freeze_and_distribute (which half an entry is copied to) and optimal_boundary are not covered.")

prop("C29", "A lookup in a leaf returns the right entry whatever the order of its slots",
     "For every arrangement of live, free and removed slots in a leaf of a TreeIndex: a search returns key and value of the slot that holds the key and "
     "none only if no live slot holds it; min_greater_equal returns the least entry that is not less, max_less the greatest that is less, "
     "max_entry the greatest; is_empty says whether a live slot is left; an iterator visits next the live slot with the next higher rank and ends only when "
     "there is none; no operation looks at the content of a slot that the metadata does not show as live.",
     ["inputs", "schedules"], "every path of every reading operation of a leaf and of its scanner, every slot and cursor position",
     "There are millions of arrangements of ranks; a shortcut in the comparison goes wrong in a few of them.",
     ["src/tree_index/leaf.rs"],
     [("search with rank bounds", "src/tree_index/leaf.rs: search_slot, min_greater_equal, max_less, max_entry, is_empty"),
      ("iteration by rank", "src/tree_index/leaf.rs: Leaf::next, Scanner::proceed, Scanner::get, Scanner::max_less")],
     "abstract interpretation of MIR over a relational domain for the ranks packed in the metadata word: one symbolic slot against every other",
     "Assumes what C28 establishes: live slots have distinct ranks in key order.  Leaves are analysed with 5 to 14 slots.  How nodes and scanners of several "
     "leaves are combined is decided by C24 as far as reachability goes, and not at all as far as key order goes.")

prop("C14", "A bucket's slots, bitmaps and length always agree",
     "In every hash container, an entry is written only to a free slot, a slot is marked as occupied exactly once its entry and partial hash "
     "were written, and is marked as free exactly when its entry has been moved out or dropped, and each entry is moved out or dropped "
     "exactly once; the length of a bucket changes by exactly the number of entries added and removed; a slot of a cache that is freed leaves the list of "
     "recently used ones; an overflow bucket is detached and freed only when it is empty (or the container goes), the chain of overflow "
     "buckets stays linked in both directions, and nothing in it is lost when a bucket or an overflow bucket is destroyed.",
     ["inputs", "histories"], "every control-flow path of every operation of a bucket (insert, remove, mark, evict, reserve, move, destroy), for maps, indexes and caches; every bitmap",
     "A wrong bit shows only with the bucket full, with overflow buckets, or while a table is resized; a leak or double drop shows only with "
     "types that own memory.",
     ["src/hash_table/bucket.rs"],
     [("insert, insert_overflow, insert_entry", "src/hash_table/bucket.rs"), ("remove, evict_lru_head, mark_removed", "src/hash_table/bucket.rs"),
      ("extract_from, clear_unreachable_entries, drop_entries, unlink, kill", "src/hash_table/bucket.rs")],
     "path-sensitive symbolic bitmap analysis (typestate of each slot: free, written, occupied, moved, dropped) on MIR",
     "The caller's obligations (the pointer given to remove points to an occupied slot; the bucket is locked, decided by C01/C02) are assumed. "
     "Panics of a destructor inside a bucket operation are covered only for the entry being dropped; the order within the list of "
     "recently used entries is not decided.")

prop("C15", "A search of a bucket finds the entry if it is there",
     "Looking up a key in a bucket compares only slots that hold a present entry, leaves one out only if its partial hash differs, goes on to "
     "every overflow bucket before it answers that there is none, and what it returns is the slot whose key was found equal.",
     ["inputs", "histories"], "every control-flow path of every search, for maps, indexes and caches, every bitmap and every chain of overflow buckets",
     "The tests rarely have two candidates with the same partial hash, or more than one overflow bucket, or a removed entry with the same hash.",
     ["src/hash_table/bucket.rs"],
     [("search_data_block", "src/hash_table/bucket.rs"), ("search_entry, get_entry_ptr walk the overflow chain", "src/hash_table/bucket.rs")],
     "path-sensitive symbolic analysis of bitmap iteration (which candidates were compared, skipped, exhausted) on MIR",
     "That equal keys have equal hashes is the user's contract; which bucket is searched is decided by C08.")

prop("C16", "Iterating over a bucket visits every entry once",
     "A step of an iteration over a bucket moves to the first present slot behind the one visited before, or into the next overflow bucket only once none "
     "is left; it ends only behind the last overflow bucket and stays ended; removing the visited entry leaves the iteration where it can go on, even if "
     "its overflow bucket is freed.",
     ["inputs", "histories"], "every control-flow path of a step and of each removal, for maps, indexes and caches, every bitmap, every starting point",
     "A skipped slot shows only for particular patterns of occupied slots around the borders of overflow buckets.",
     ["src/hash_table/bucket.rs"],
     [("move_to_next, next_entry", "src/hash_table/bucket.rs"), ("unlink moves the pointer on", "src/hash_table/bucket.rs")],
     "path-sensitive symbolic analysis of bitmap iteration on MIR",
     "Whole-table iteration (which bucket comes next, during a resize) is C08's and C11's subject; entries that concurrent writers add or remove may or may not be visited.")

prop("C18", "HashIndex readers never see half-written, vanishing or freed entries",
     "In a HashIndex, which is read without locks, an entry and its hash are written before its slot is published; an entry that is moved is "
     "published at its new place before it is hidden at the old one; the epoch of a removal is recorded before the entry is marked as removed; a "
     "removed entry is dropped, and its slot reused, only if its epoch of removal was compared and is of another generation than the current; its slot ceases "
     "to be occupied before it ceases to be removed; each of these stores has release ordering and readers load the bitmaps in the "
     "opposite order with acquire ordering; an overflow bucket readers may hold is not freed at once.",
     ["schedules", "histories"], "every control-flow path of every operation of a HashIndex bucket",
     "A reader has to look between two particular stores, or hold a reference across an epoch; on x86 most ordering bugs never show.",
     ["src/hash_table/bucket.rs"],
     [("insert_entry publishes with Release", "src/hash_table/bucket.rs"), ("mark_removed, drop_unreachable_entries, clear_unreachable_entries", "src/hash_table/bucket.rs"),
      ("extract_from, kill", "src/hash_table/bucket.rs")],
     "path-sensitive typestate and publication-order analysis of slots, epochs and bitmaps on MIR",
     "sdd's Epoch::in_same_generation and deferred Shared::release are trusted; that the orderings named suffice is the code's own argument.")

for _id, _title, _st, _files, _why in [
    ("C40", "Operations on the containers are linearizable",
     "The results of concurrent insertions, removals, updates and lookups on any container can be explained by performing them one at a time, in an order that respects real time.",
     ["src/hash_table.rs", "src/tree_index.rs"],
     "Linearizability quantifies over histories of values returned by concurrent calls; no static argument in reach relates them. Its structural premises "
     "(mutual exclusion, publication order, re-validation, complete search) are decided by C02, C08, C15, C18, C23, C24, C27."),
    ("C41", "HashCache evicts the least recently used entry",
     "When a full bucket of a HashCache takes another entry, the entry evicted is the one whose last access lies furthest back.",
     ["src/hash_table/bucket.rs"],
     "The list is a ring of indices stored in an array; whether it is a single cycle in access order is an inductive invariant over run-time numbers, "
     "out of reach of the path analysis used here. That an evicted or removed slot leaves the list is decided by C14."),
    ("C42", "TreeIndex iterates in key order; a range holds exactly the keys in its bounds",
     "Iterating over a TreeIndex yields keys in strictly increasing order, and range yields exactly the keys within its bounds.",
     ["src/tree_index/leaf.rs", "src/tree_index.rs"],
     "Across leaves, the order depends on comparisons made while other threads restructure the tree, which no static argument in reach bounds. Inside a leaf it is decided by C28 and C29; the structural "
     "part (no entry hidden or doubled by a restructuring, links in key order) is decided by C24."),
    ("C43", "Removed entries and old arrays are eventually dropped",
     "Every entry and bucket array removed from an epoch-reclaimed container is dropped once no reader can hold it and epochs advance.",
     ["src/hash_index.rs", "src/tree_index.rs"],
     "A liveness property of the epoch collector sdd, an external crate, under a fair scheduler; nothing in this code base bounds it statically."),
    ("C44", "Operations take constant expected time and resizing is amortised",
     "With a good hash function, a lookup or insertion touches a bounded expected number of slots, and the table grows and shrinks so that its load stays between bounds.",
     ["src/hash_table.rs"],
     "A statement about probability and amortised cost over histories; there is no construct whose presence or absence decides it."),
]:
    prop(_id, _title, _st, ["schedules", "histories"], "every history", "Tests sample a few histories.", _files, [("see statement", _files[0])], na=_why)
