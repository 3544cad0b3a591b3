from vlib import corrupt
import applyruns as A
from runs import pool


def run(c):
    c.model("ApplyMC", min_states=50000, actions=["Grow", "Apply"])
    if c.thorough:
        c.model("ApplyMC", "ApplyMCBig.cfg", min_states=500000, actions=["Grow", "Apply"], timeout=3000)
    for v in ("unweighted", "inner", "byplace"):
        c.model_fails("ApplyMC", "ApplyMC_%s.cfg" % v, "ByDefinition")
    exe = c.cmd("applyforest")
    tr = pool(lambda i: A.apply_run(c, exe, i), range(4000 if c.thorough else 700))

    def ev(t, op):
        return [e for e in t["ev"] if e["op"] == op][0]

    def label(t):
        [r for r in ev(t, "preds")["rows"] if r[1] != "NA"][0][1] = "nosuchlabel"
        return t["mode"] == "cat"

    def number(t):
        r = [r for r in ev(t, "preds")["rows"] if "NA" not in r[1] and r[1] != "nan"][0]
        r[1] = "1234567/89"
        return t["mode"] != "cat"

    def phantom(t):
        [r for r in ev(t, "preds")["rows"] if r[1] == "NA"][0][1] = "c0" if t["mode"] == "cat" else "0"
        return t["mode"] != "sum"

    def order(t):
        rows = ev(t, "preds")["rows"]
        rows[0], rows[-1] = rows[-1], rows[0]
        return len(rows) > 1

    def vote(t):
        v = ev(t, "votes")["rows"][0]["votes"]
        v[0] = "7777/8"

    def actual(t):
        ev(t, "preds")["rows"][0][2] += "0"
    neg = []
    for f in (label, number, phantom, order, vote, actual):
        neg += corrupt(tr, f, f.__name__)
    c.validate("ApplyTrace", tr, negatives=neg)
    c.coverage["runs"] = {m: sum(t["mode"] == m for t in tr) for m in ("cat", "num", "sum")}
    c.coverage["rule"] = "random forest files (weights, missing branches, predictions at inner nodes) on random data laid out differently"
