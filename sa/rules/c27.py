"""The state of a bucket changes only under its exclusive lock."""
import re

import facts
from facts import cname, op_place
from prov import Origins, peel
from rules.locks import FORGET, guard_types

SLOT = re.compile(r"^\*(mut|const) T::(write|read|drop_in_place|replace|swap|write_\w+|read_\w+|copy_\w+)$"
                  r"|^std::ptr::(write|read|drop_in_place|replace|swap|copy|copy_nonoverlapping)$"
                  r"|^std::mem::MaybeUninit::(write|assume_init_read|assume_init_drop|as_mut_ptr|assume_init_mut)$")
ATOMIC = re.compile(r"(atomic::Atomic|sdd::AtomicShared)::(store|swap|fetch_\w+|compare_exchange\w*|update_tag_if|try_update|update)$")
CELL = re.compile(r"^(u8|\(u8, u8\)|std::mem::MaybeUninit<\(K, (V|\(\))\)>)$")
PAIR = re.compile(r"^\(K, (V|\(\))\)$")
STATE = ("hash_table::bucket::Bucket", "hash_table::bucket::LinkedBucket", "hash_table::bucket::Metadata",
         "hash_table::bucket::DoublyLinkedList")
DATA = "hash_table::bucket::DataBlock"
ARRAY = "hash_table::bucket_array::BucketArray"


def check(c):
    c.rule = ("every store to a field of a bucket, its slots, its overflow buckets or its LRU list goes through a reference obtained "
              "from a guard that holds the bucket's exclusive lock (or from exclusive ownership), through every helper on the way")
    F = facts.load()
    guards = {k: v for k, v in guard_types(F).items() if k.startswith("hash_")}
    drops = {"<%s as std::ops::Drop>::drop" % k: ("W" if v == {"excl"} else "R") for k, v in guards.items()}
    state = set(STATE)

    def label(i):
        T = F.types[i]
        t = T["s"]
        mut = False
        while T["k"] in ("ref", "ptr") and T.get("a"):
            mut = T["s"].startswith("&mut")
            T = F.types[T["a"][0]]
        for g in T.get("glue", ()):
            if g.get("n") in drops and T.get("adt", "").startswith("hash_") or g.get("n") in drops and T["k"] in ("closure", "tuple"):
                return drops[g["n"]]
        if T.get("adt") in guards:
            return "W" if guards[T["adt"]] == {"excl"} else "R"
        a = peel(t)
        if a == ARRAY:
            return "owned" if t.startswith("&mut ") else "array"
        if T.get("adt") in state and (T["s"] == t or mut):
            return "owned"
        return None

    O = Origins(F, label, lambda adt, n: "array" if n == "bucket_array" and not adt.startswith("std") else None)
    # The mutations in each function: (block, origins of what is changed).
    need, sites = {}, {}

    def param(f, i):
        return peel(F.ts(f.locals[i][0]))

    def judge(f, i, orgs, what):
        n = 0
        for x in orgs:
            if isinstance(x, tuple):
                a = param(f, x[1])
                if a in state or a.startswith("L") and len(a) == 1:
                    if x[1] not in need.setdefault(f.id, {}):
                        need[f.id][x[1]] = what
                        work.append(f.id)
                elif a in ("usize", "u8", "u32", "u64", "hash_table::bucket::EntryPtr"):
                    continue    # where in the bucket, not which bucket
                elif a in (DATA, "std::sync::atomic::Atomic", "std::cell::UnsafeCell", "sdd::AtomicShared") or "closure" in a:
                    continue    # one part of a bucket: whoever takes it from the bucket is judged
                elif f.n.startswith("hash_") or f.n.startswith("<hash_"):
                    bad(f, i, "no lock", what)
            elif x == "array":
                if own_array(f):
                    continue
                if under_leak(f, i):
                    n = 1
                    leaked.add(f.n)
                    continue
                bad(f, i, "an unlocked bucket of an array", what)
            elif x == "R":
                bad(f, i, "a bucket that is locked for reading only", what)
            elif x == "W":
                n = 1
        return n

    def own_array(f):
        return any(F.ts(f.locals[k][0]).startswith("&mut ") and peel(F.ts(f.locals[k][0])) == ARRAY for k in range(1, f.argc + 1))

    leakers = F.callers_closure({f.id for f in F.fns.values() if any(
        FORGET.match(cname(cc)) and any(guards.get(re.sub(r"<.*", "", F.ts(g))) == {"excl"} for g in cc.get("ga", [])) for i, cc in f.calls())})
    leaked = set()

    def under_leak(f, i, seen=()):
        """The guards of the target buckets were leaked on purpose (C01: and are recovered later) before block i of f is reached."""
        if after_leak(f, i):
            return True
        if f.id in seen:
            return False
        cs = [(g, j) for g, j in callers.get(f.id, ())]
        return bool(cs) and all(under_leak(g, j, seen + (f.id,)) for g, j in cs)

    def after_leak(f, i):
        L = {j for j, cc in f.calls() if cc.get("id", -1) in leakers and cc.get("id") != f.id or FORGET.match(cname(cc))
             and any(guards.get(re.sub(r"<.*", "", F.ts(g))) == {"excl"} for g in cc.get("ga", []))}
        if not L:
            return False
        stop = {h for h, body in f.loops() if body & L} | L
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            if x in stop:
                continue
            if x == i:
                return False
            for y, k in f.succ(x):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return True

    callers = {}
    for f in F.fns.values():
        for i, cc in f.calls():
            callers.setdefault(cc.get("id", -1), []).append((f, i))

    def bad(f, i, how, what):
        c.fail("%s:%s" % (what.split()[0], f.n), "%s changes %s through %s" % (f.n, what, how), "%s (%s)" % (f.bb[i]["sp"], f.n))

    work, prim, held = [], 0, 0
    for f in F.fns.values():
        if not re.match(r"<?hash_", f.n):
            continue
        o = None
        for i, cc in f.calls():
            n = cname(cc)
            a = f.bb[i]["t"]["a"]
            p = op_place(a[0]) if a else None
            if p is None:
                continue
            g = F.ts(cc["ga"][0]) if cc.get("ga") else ""
            what = None
            if SLOT.match(n) and (PAIR.match(g) or CELL.match(g)):
                what = "slot"
            elif ATOMIC.search(n):
                what = "field"
            if what is None:
                continue
            o = o or O.of(f)
            orgs = o.get(p[0], frozenset())
            if what == "field" and not any(isinstance(x, tuple) and param(f, x[1]) in state or x in ("R", "W") for x in orgs) and \
                    not on_state(F, f, p):
                continue
            if f.n.split("::")[-1].startswith("{closure"):
                continue
            prim += 1
            held += judge(f, i, orgs, "%s of a bucket (%s)" % (what, n.rsplit("::", 1)[-1]))
        for i, b in enumerate(f.bb):
            for s in b["s"]:
                # &mut *cell.get()
                if s[0] == "=" and s[2][0] == "ref" and s[2][1] == "mut" and s[2][2][1:] == ["*"] and \
                        F.ts(f.locals[s[2][2][0]][0]).startswith("*mut ") and CELL.match(F.ts(f.locals[s[2][2][0]][0])[5:]):
                    o = o or O.of(f)
                    prim += 1
                    held += judge(f, i, o.get(s[2][2][0], frozenset()), "cell of a bucket")
    # Callers of what changes a parameter.
    calls = 0
    while work:
        g = work.pop()
        for f, i in callers.get(g, ()):
            a = f.bb[i]["t"]["a"]
            for k, what in list(need[g].items()):
                p = op_place(a[k - 1]) if k - 1 < len(a) else None
                if p:
                    calls += 1
                    o = O.of(f)
                    held += judge(f, i, O.place(o, p), what)
    c.count(prim + calls)
    c.floor("mutations", prim, 40)
    c.floor("calls that pass a bucket to be changed", calls, 60)
    c.floor("sites where a lock holder is met", held, 30)
    n = 0
    for f in F.fns.values():
        if re.match(r"<?hash_", f.n):
            n += after_release(c, F, f, O, label)
    c.count(n)
    c.floor("references to entries followed to the end of their lock", n, 4)
    c.floor("functions that work on buckets whose guards were leaked", len(leaked), 1)
    c.analysed["functions that change a bucket they are given"] = len({F.fns[x].n for x in need})


def on_state(F, f, p):
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and s[1] == [p[0]] and s[2][0] in ("ref", "raw"):
                for e in s[2][2][1:]:
                    if isinstance(e, list) and e[0] == "f" and len(e) > 3 and e[3] in STATE:
                        return True
    return False


SLOTREF = re.compile(r"^(std::option::Option<)?\(?&(mut )?(\(K, (V|\(\))\)|[KV]\b)")


def after_release(c, F, f, O, label):
    """In containers whose readers lock: a reference into a bucket is not used once the guards of the function are gone."""
    guards = set()
    for i, l in enumerate(f.locals):
        T = F.types[l[0]]
        lab = label(l[0]) if T["k"] == "adt" else None
        if lab in ("W", "R") and T.get("nd", True) and "'O'" not in T["s"] and not re.match(r"hash_index::", T["adt"]):
            guards.add(i)
    if not guards or any("'O'" in F.ts(l[0]) or "hash_index::" in F.ts(l[0]) for l in f.locals):
        return 0
    # A capability that outlives the function.
    for k in range(1, f.argc + 1):
        t = F.ts(f.locals[k][0])
        if t.startswith("&") and label(f.locals[k][0]) in ("W", "R"):
            return 0
    o = O.of(f)
    src = {}
    for i, cc in f.calls():
        d = f.bb[i]["t"]["d"]
        if len(d) == 1 and SLOTREF.match(F.ts(f.locals[d[0]][0])):
            for a in f.bb[i]["t"]["a"]:
                p = op_place(a)
                if p and (o.get(p[0], frozenset()) & {"W", "R", "array"} or peel(F.ts(f.locals[p[0]][0])) == DATA):
                    src[i] = d[0]
    if not src:
        return 0
    init = (frozenset(g for g in guards if g <= f.argc), frozenset(), frozenset())
    seen, st = {(0, init)}, [(0, init)]
    while st:
        i, (live, refs, stale) = st.pop()
        b = f.bb[i]

        def gone(g):
            nonlocal live, stale
            live = live - {g}
            if not live:
                stale = stale | refs

        def reads(p):
            if p and p[0] in stale:
                c.fail("after:%s" % f.n, "%s uses a reference to an entry after the lock that protected it is released" % f.n,
                       "%s (%s)" % (b["sp"], f.n))
        for s in b["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            ps = [op_place(x) for x in facts.rv_operands(rv)]
            if rv[0] in ("ref", "raw"):
                ps.append(rv[2])
            elif rv[0] == "discr":
                ps.append(rv[1])
            for p in ps:
                reads(p)
            l = s[1][0]
            moved = [p[0] for p in ps if p and len(p) == 1 and p[0] in live and p[0] in guards]
            if l in guards and len(s[1]) == 1:
                live = live | {l}
            if moved and rv[0] in ("use", "agg", "cast"):
                live = live - {m for m in moved if rv[0] != "agg" or True}
                if l in guards:
                    live = live | {l}
                elif not live:
                    # Moved into something that is not a known holder.
                    live = live | {moved[0]}
            if any(p and p[0] in refs for p in ps) and (SLOTREF.match(F.ts(f.locals[l][0])) or len(s[1]) > 1):
                refs = refs | {l}
                if any(p and p[0] in stale for p in ps):
                    stale = stale | {l}
            elif len(s[1]) == 1:
                refs, stale = refs - {l}, stale - {l}
        t = b["t"]
        nxt = None
        if "call" in t:
            for a in t["a"]:
                p = op_place(a)
                if p:
                    reads(p)
            for a in t["a"]:
                p = a.get("m")
                if p and len(p) == 1 and p[0] in live:
                    d = t["d"]
                    if len(d) == 1 and d[0] in guards:
                        live = live - {p[0]}
                    else:
                        gone(p[0])
            d = t["d"]
            if len(d) == 1:
                refs, stale = refs - {d[0]}, stale - {d[0]}
                if d[0] in guards:
                    live = live | {d[0]}
                if i in src and live:
                    refs = refs | {d[0]}
        elif "drop" in t and len(t["drop"]) == 1 and t["drop"][0] in live:
            gone(t["drop"][0])
        for j, k in f.succ(i, unwind=False):
            x = (j, (live, refs, stale))
            if x not in seen:
                seen.add(x)
                st.append(x)
    return len(src)
