"""Where the references of a function come from (flow-insensitive): its parameters, a guard it has at hand, something new."""
import re

from facts import cname, op_place

SCALAR = ("bool", "int", "uint", "char", "never", "float", "prim", "scalar", "other")
PEEL = re.compile(r"^(&('\w+ )?(mut )?|\*(const|mut) |std::option::Option<|std::ptr::NonNull<|std::pin::Pin<|std::mem::ManuallyDrop<"
                  r"|sdd::Shared<|sdd::Ptr<|'\w+, )+")


def peel(t):
    """The ADT path behind references, options and the like."""
    return re.sub(r"<.*", "", PEEL.sub("", t)).rstrip(">")


class Origins:
    """label(type index) -> the origin every value of that type has, or None."""

    def __init__(self, F, label, field=None):
        self.F, self.label, self.field = F, label, field or (lambda adt, name: None)
        self.memo = {}

    def of(self, f):
        """local -> frozenset of ('p', i) | label."""
        r = self.memo.get(f.id)
        if r is not None:
            return r
        o, fixed = {}, set()
        for i, l in enumerate(f.locals):
            lab = self.label(l[0])
            if lab:
                o[i] = {lab}
                fixed.add(i)
            elif 1 <= i <= f.argc:
                o[i] = {("p", i)}
        ch = True
        while ch:
            ch = False
            for b in f.bb:
                todo = []
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    if rv[0] in ("ref", "raw"):
                        todo.append((s[1][0], rv[2]))
                    elif rv[0] in ("use", "cast"):
                        todo.append((s[1][0], op_place(rv[1] if rv[0] == "use" else rv[2])))
                    elif rv[0] == "agg":
                        todo += [(s[1][0], op_place(x)) for x in rv[2]]
                t = b["t"]
                if "call" in t and self.F.types[f.locals[t["d"][0]][0]]["k"] not in SCALAR:
                    todo += [(t["d"][0], op_place(a)) for a in t["a"]]
                for l, p in todo:
                    if p and l not in fixed:
                        x = self.place(o, p)
                        if not x <= o.setdefault(l, set()):
                            o[l] |= x
                            ch = True
        r = self.memo[f.id] = {k: frozenset(v) for k, v in o.items()}
        return r

    def place(self, o, p):
        for e in reversed(p[1:]):
            if isinstance(e, list) and e[0] == "f" and len(e) > 3:
                lab = self.field(e[3], e[2])
                if lab:
                    return {lab}
        return o.get(p[0], set())
