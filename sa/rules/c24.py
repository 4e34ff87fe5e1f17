from rules.c23 import part


def check(c):
    c.rule = ("on every path of every tree operation: a child found by key is used only after the metadata of its node was read before the "
              "search and confirmed unchanged after the pointer was loaded; both halves of a full child are reachable before it is "
              "replaced; leaves are frozen before they are copied, stay frozen until exactly one of original and copies is in the list; "
              "the key of a child is removed only once the child is retired, moved or covered by the range to remove, and its pointer is cleared "
              "only after that; a child that takes another's place is reachable there before its old key is removed")
    part(c, "24", [("changes of the structure of a node", "changes", 30), ("uses of a child found by key", "uses", 15),
                   ("children published", "published", 10), ("confirmations", "checked", 15), ("children removed", "removed", 4)])
