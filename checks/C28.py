import skruns
from runs import pool
from vlib import corrupt

FLAWS = ("early", "stale", "counts", "deep", "sibling", "forests")


def run(c):
    c.model("FlatMC", min_states=10000, actions=["Grow", "Do", "Keep", "Rehearse"])
    c.model("FlatMC", "FlatMCTwo.cfg", min_states=3000)
    if c.thorough:
        c.model("FlatMC", "FlatMCBig.cfg", min_states=20000)
    for f in FLAWS:
        c.model_fails("FlatMC", "FlatMC_%s.cfg" % f, "Exported")
    exe = c.cmd("growforest")
    n = 4000 if c.thorough else 500
    tr = pool(lambda i: skruns.sk_run(c, exe, i), range(n))

    def pair(t, cond=lambda e: len(e["flat"]) > 2):
        return [e for e in t["ev"] if e["op"] == "pair" and cond(e)][0]

    def inner(e):
        return [x for x in e["flat"] if x["l"] >= 0]

    def child(t):
        x = inner(pair(t))[0]
        x["l"], x["r"] = x["r"], x["l"]

    def feature(t):
        inner(pair(t))[-1]["f"] += 1

    def threshold(t):
        e = pair(t, lambda e: e["nodes"][0]["kind"] == "num")
        e["flat"][0]["t"] = "1/1000003"

    def prune(t):
        e = pair(t, lambda e: len(e["flat"]) == 3)
        e["flat"], e["count"], e["capacity"], e["depth"] = e["flat"][1:2], 1, 1, 0

    def one(key):
        def f(t):
            pair(t)[key] += 1
        f.__name__ = key
        return f

    def shared(t):
        x = inner(pair(t, lambda e: len(e["flat"]) > 4))[0]
        x["l"] = x["r"] = max(x["l"], x["r"])

    def lost(t):
        t["ev"][-1]["exported"] -= 1

    def more(t):
        t["ev"][-1]["saved"] += 1
    neg = []
    for f in (child, feature, threshold, prune, one("count"), one("capacity"), one("depth"), shared, lost, more):
        neg += corrupt(tr, f, f.__name__)
    c.validate("FlatTrace", tr, negatives=neg)
    c.coverage["rule"] = "%d growforest runs saving and exporting the same forest, over random tables with numbers, categories and missing values, on one to four cores, with limits, boosting, jungles, contrasts" % n
