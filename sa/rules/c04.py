"""Every future of the asynchronous interface is Send (compiled witness, generic over every key, value, hasher, closure)."""
import re

import witness


def check(c):
    c.rule = ("witness/send_futures.rs is compiled against the current crate: send(fut) for every public async method, "
              "generic over all Send/Sync key, value, hasher, query and closure types; one obligation per send() line; a "
              "line the compiler refuses is a violation; the same harness must refuse a future holding an Rc")
    src, errs = witness.run_pass("send_futures.rs")
    lines = src.splitlines()
    bad = {e["line"]: e for e in errs}
    n, mod = 0, ""
    for i, l in enumerate(lines, 1):
        m = re.match(r"\s*mod (\w+)", l)
        if m:
            mod = m.group(1)
        m = re.search(r"\bsend\((\w+)\.(\w+)\(", l)
        if not m:
            continue
        n += 1
        e = bad.pop(i, None)
        name = "%s::%s" % (mod, m.group(2))
        c.ob(e is None, name, "the future of %s is not Send: %s %s" % (
            name, e and e["msg"], e and "; ".join(e["notes"][:3])), "witness/send_futures.rs:%d" % i)
    for ln, e in bad.items():
        c.fail("compile:%s" % e["text"], "the witness no longer compiles at `%s`: %s" % (e["text"], e["msg"]),
               "witness/send_futures.rs:%d" % ln)
    c.floor("public futures", n, 56)
    # The harness can fail: a future that is not Send is refused.
    neg = witness.run_src("fn send<T: Send>(_: T) {}\npub fn f() { send(async { let r = std::rc::Rc::new(1);"
                          " std::future::ready(()).await; drop(r); }); }\n")
    c.ob(bool(neg), "self-test", "the harness accepts a future holding an Rc", sample={"self-test": "Rc across await refused"})
    c.analysed["self_test"] = 1
