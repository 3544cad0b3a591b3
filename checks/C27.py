import plainruns as P
from runs import pool
from vlib import corrupt


def run(c):
    c.model("OptMC", "OptMCBig.cfg" if c.thorough else "OptMC.cfg", min_states=50000, actions=["Resolve", "Split", "Leaf"], timeout=2000)
    c.model_fails("OptMC", "OptMC_down.cfg", "Shares")
    c.model_fails("OptMC", "OptMC_all.cfg", "Shares")
    c.model("GrowMC", "GrowMC.cfg", min_states=5000, actions=["Split", "Leaf", "Again"], timeout=2000)
    exe, ace = c.cmd("growforest"), c.cmd("growforest", tags="verif")
    n = 6000 if c.thorough else 900
    tr = pool(lambda i: P.plain_run(c, exe, ace, i), range(n))
    for t in tr:
        t["ev"] = [e for e in t["ev"] if e["op"] != "total"]

    def grow(t, cond=lambda e: True):
        return [e for e in t["ev"] if e["op"] == "grow" and cond(e)][0]

    def leaves(e):
        return [x for x in e["nodes"] if x["kind"] == "leaf"]

    def pred(t):
        x = leaves(grow(t))[0]
        x["pred"] += "1"
        x["num"] = "987654321"

    def split(t):
        e = grow(t, lambda e: e["nodes"][0]["kind"] == "num")
        e["nodes"][0]["value"] = "1000000"

    def cut(t):
        e = grow(t, lambda e: e["all"] and len(e["nodes"]) > 1 and e["tryopt"]["how"] == "count" and e["tryopt"]["num"] >= len(e["cands"]))
        x = dict(e["nodes"][0], kind="leaf", feat="", l=0, r=0, m=0, pred=leaves(e)[0]["pred"], num=leaves(e)[0]["num"])
        e["nodes"] = [x]

    def cand(t):
        e = grow(t, lambda e: e["nodes"][0]["kind"] != "leaf")
        e["cands"] = [x for x in e["cands"] if x != e["nodes"][0]["feat"]] + [t["cols"][0]["name"]] * (len(e["cands"]) == 1)
        return e["nodes"][0]["feat"] not in e["cands"]

    def deep(t):
        e = grow(t, lambda e: e["nodes"][0]["kind"] != "leaf" and e["nodes"][e["nodes"][0]["l"] - 1]["kind"] != "leaf")
        e["depth"] = 1

    def said(key, by):
        def f(t):
            t["ev"][-1][key] += by
        f.__name__ = "said" + key
        return f
    sz = pool(lambda i: P.size_run(c, exe, i), range(n // 3))

    def sized(key):
        def f(t):
            t["ev"][0]["said"][key] += 1
        f.__name__ = "sized" + key
        return f

    def kept(t):
        t["ev"][0]["kept"][0]["mtry"] += 1
    neg = corrupt(sz, kept, "kept")
    for k in ("known", "leaf", "samples", "mtry", "features"):
        neg += corrupt(sz, sized(k), "sized" + k)
    for f in (pred, split, cut, cand, deep, said("trees", 1), said("leaf", 1), said("mtry", -1)):
        neg += corrupt(tr, f, f.__name__)
    c.validate("PlainTrace", tr + sz, negatives=neg)
    c.coverage["rule"] = "%d growforest runs without bagging over random tables of 6 to 19 cases, 12 kinds of target and random limits" % n
