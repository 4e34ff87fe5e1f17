"""Flow-insensitive def-use helpers: which fields, what a local is a reference to, where a value may go."""
import re

from facts import cname, op_place, rv_operands


def field_types(F):
    """(adt, field) -> set of printed types, from the borrows and copies of that field."""
    r = getattr(F, "_ftypes", None)
    if r is None:
        r = {}
        for f in F.fns.values():
            for b in f.bb:
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1 and s[2][0] in ("ref", "raw", "use"):
                        p = s[2][2] if s[2][0] != "use" else op_place(s[2][1])
                        if p and isinstance(p[-1], list) and p[-1][0] == "f" and len(p[-1]) > 3:
                            t = F.ts(f.locals[s[1][0]][0])
                            if s[2][0] != "use":
                                t = re.sub(r"^(&(mut )?|\*(const|mut) )", "", t)
                            r.setdefault((p[-1][3], p[-1][2]), set()).add(t)
        F._ftypes = r
    return r


def fields_of_type(F, rx_adt, rx_type):
    return {k for k, ts in field_types(F).items() if re.search(rx_adt, k[0]) and any(re.search(rx_type, t) for t in ts)}


def places(F, f):
    """local -> set of (adt, field) it may be (a reference to); through accessor functions."""
    acc = accessors(F)
    r = {}
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(f.bb):
            for s in b["s"]:
                if s[0] != "=" or len(s[1]) != 1:
                    continue
                src = set()
                p = None
                if s[2][0] in ("ref", "raw"):
                    p = s[2][2]
                elif s[2][0] in ("use", "cast"):
                    p = op_place(s[2][1] if s[2][0] == "use" else s[2][2])
                if p:
                    last = p[-1] if len(p) > 1 else None
                    if last == "*" and len(p) > 2:
                        last = p[-2]
                    if isinstance(last, list) and last[0] == "f" and len(last) > 3:
                        src.add((last[3], last[2]))
                    elif len(p) == 1 or p[1:] == ["*"]:
                        src |= r.get(p[0], set())
                if not src <= r.get(s[1][0], set()):
                    r.setdefault(s[1][0], set()).update(src)
                    ch = True
            t = b["t"]
            if "call" in t and "fn" in t["call"] and len(t["d"]) == 1:
                x = acc.get(t["call"]["fn"].get("id", -1))
                if x and not x <= r.get(t["d"][0], set()):
                    r.setdefault(t["d"][0], set()).update(x)
                    ch = True
    return r


def accessors(F):
    """fn id -> the fields a small function returns a reference to."""
    r = getattr(F, "_acc", None)
    if r is None:
        F._acc = r = {}
        ch = True
        while ch:
            ch = False
            for f in F.fns.values():
                if f.cor or len(f.bb) > 8 or not F.ts(f.locals[0][0]).startswith("&"):
                    continue
                x = places(F, f).get(0, set())
                if x and x != r.get(f.id):
                    r[f.id] = set(x)
                    ch = True
    return r


def sites_on(F, fields, rx):
    """(fn, block, callee name) of every call whose receiver is one of the fields."""
    out = []
    for f in F.fns.values():
        pl = None
        for i, c in f.calls():
            n = cname(c)
            if not re.search(rx, n) or not f.bb[i]["t"]["a"]:
                continue
            if pl is None:
                pl = places(F, f)
            p = op_place(f.bb[i]["t"]["a"][0])
            if p and pl.get(p[0], set()) & fields:
                out.append((f, i, n))
    return out


def const(o):
    try:
        return int(o["v"]) if "k" in o and o.get("v") is not None else None
    except ValueError:
        return None


def use_ops(rv):
    return rv_operands(rv)
