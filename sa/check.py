#!/usr/bin/env python3
"""Runs one property's check: check.py <ID>.  Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import VERIF, ToolError  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obligations = 0
        self.bad = {}
        self.samples = []
        self.analysed = {}
        self.rule = ""
        self.assumptions = []

    def ob(self, ok, key, msg, where="", chain=None, sample=None):
        """One obligation of the rule."""
        self.obligations += 1
        if not ok:
            self.fail(key, msg, where, chain)
        elif len(self.samples) < 12:
            self.samples.append(sample or {"obligation": key, "where": where, "held": True})
        return ok

    def count(self, n):
        self.obligations += n

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s)

    def fail(self, key, msg, where="", chain=None):
        if key not in self.bad:
            self.bad[key] = {"key": key, "what": msg, "where": where, "path": chain or []}

    def floor(self, what, n, least):
        """A rule that matches too few sites would pass vacuously."""
        self.analysed[what] = n
        if n < least:
            self.fail("floor:" + what, "the rule matches %d %s, fewer than the %d confirmed by hand: "
                      "its anchors are gone" % (n, what, least))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                h, _, what = l[7:].partition(" :: ")
                pid, _, key = h.partition(" key=")
                out.setdefault(pid.replace("property=", "").strip(), {})[key.strip()] = what
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = importlib.import_module("rules." + pid.lower())
    c = Check(pid, tier)
    try:
        m.check(c)
    except ToolError as e:
        print("the check could not run: %s" % e, file=sys.stderr)
        return 2
    kn = known().get(pid, {})
    viol = [b for k, b in c.bad.items() if k not in kn]
    found = [b for k, b in c.bad.items() if k in kn]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    cov = {"explanation": c.rule, "rule": c.rule, "obligations": c.obligations,
           "discharged": c.obligations - min(len(c.bad), c.obligations), "samples": c.samples,
           "analysed": c.analysed}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for b in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, b["what"]))
    if viol:
        p = os.path.join("evidence", "replay", pid + ".json")
        json.dump(viol, open(os.path.join(VERIF, p), "w"), indent=1)
        for b in viol[:40]:
            print("%s: [%s] %s" % (b["where"] or "-", b["key"], b["what"]))
            if b["path"]:
                print("    path: " + " > ".join(b["path"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s: %d obligations hold (%s) in %.1f s" % (
        pid, c.obligations, ", ".join("%s %s" % (v, k) for k, v in c.analysed.items()), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
