"""Reachability over the instance call graph (callees, closures, awaited coroutines, drop glue)."""
import re

from facts import cname

BLOCK = re.compile(r"^saa::(lock::|gate::|barrier::|semaphore::|rwlock::)?\w+::\w*_sync(_with)?$|^saa::\w+::wait_sync|^saa::(\w+::)*Pager::poll_sync$"
                   r"|^std::thread::|^std::hint::spin_loop$|^core::hint::spin_loop$|^std::sync::(mpsc|poison|once|barrier|lazy_lock|once_lock)"
                   r"|^std::sync::(Mutex|RwLock|Condvar|Barrier|Once|OnceLock|LazyLock|mpsc)\b|^<std::sync::(Mutex|RwLock|mpsc|LazyLock)")
SUSPEND = re.compile(r"^saa::(\w+::)*\w+::\w*_async(_with)?$")


def sites(F, f, rx):
    return [(i, cname(c)) for i, c in f.calls() if rx.search(cname(c))]


def where(f, i):
    return "%s (%s)" % (f.bb[i]["sp"], f.n)


def roots(F, names):
    out, missing = [], []
    for n in names:
        fs = [f for f in F.named(n) if f.root]
        if fs:
            out += fs
        else:
            missing.append(n)
    return out, missing
