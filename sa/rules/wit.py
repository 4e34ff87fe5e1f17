import os

import witness


def check(c, name, floor):
    c.rule = ("every case of witness/%s is compiled twice against the current crate: the offending program must be refused "
              "by the type checker and its twin, which differs only in the offending line, accepted; one obligation per "
              "case" % name)
    cases = witness.run_cases(os.path.join(witness.WIT, name))
    kinds = {}
    for case, status, msg in cases:
        kinds[msg if status == "ok" else status] = kinds.get(msg if status == "ok" else status, 0) + 1
        # A refusal under another error code still refuses the program: its twin shows the offending line is the cause.
        ok = status in ("ok", "code")
        c.ob(ok, case["name"], msg, "witness/%s: %s" % (name, case["name"]),
             sample={"case": case["name"], "refused": " ".join(case["bad"].split()), "with": msg})
    c.analysed["refusals"] = kinds
    c.floor("cases", len(cases), floor)
