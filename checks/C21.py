from vlib import corrupt
import applyruns as A
from runs import pool


def run(c):
    c.model("LeafMC", min_states=200)
    if c.thorough:
        c.model("LeafMC", "LeafMCBig.cfg", min_states=1000, timeout=2000)
    c.model_fails("LeafMC", "LeafMC_nolock.cfg", "Exact")
    c.model_fails("LeafMC", "LeafMC_early.cfg", "Exact")
    exe, race = c.cmd("leafcount"), c.cmd("leafcount", race=True)
    tr = pool(lambda i: A.leaf_run(c, exe, race, i), range(2500 if c.thorough else 320))

    def ev(t, op):
        return [e for e in t["ev"] if e["op"] == op][0]

    def shared(t):
        ev(t, "leaves")["rows"][-1][2] += 1

    def lost(t):
        ev(t, "leaves")["rows"].pop()

    def passed(t):
        ev(t, "branches")["rows"][0][2] += 1

    def other(t):
        r = ev(t, "branches")["rows"][0]
        r[1] = r[1] % len(t["cols"]) + 1
        return len(t["cols"]) > 1

    def split(t):
        [b for b in ev(t, "splits")["by"] if b["at"]][0]["at"].pop()

    def where(t):
        b = [b for b in ev(t, "splits")["by"] if b["at"] and b["kind"] == "num"][0]
        b["at"][0] = "123456/7"
    neg = []
    for f in (shared, lost, passed, other, split, where):
        neg += corrupt(tr, f, f.__name__)
    c.validate("ApplyTrace", tr, negatives=neg)
    c.coverage["runs"] = len(tr)
    c.coverage["rule"] = "random forest files and data (missing values, unseen categories, other columns) with 1 to 8 threads, plain and race-detector builds"
