import os, random, re
from vlib import corrupt
import growruns as G


def run(c):
    c.model("ForestMC", min_states=10000, actions=["Vote"])
    c.model("BallotMC", "BallotMC_cat.cfg", min_states=5000, actions=["Vote", "TallyA"])
    c.model("OobMC", "OobMCBig.cfg" if c.thorough else "OobMC.cfg", min_states=500, actions=["Sample", "Vote"], timeout=2000)
    c.model_fails("OobMC", "OobMC_stale.cfg", "OobOk")
    c.model_fails("OobMC", "OobMC_missing.cfg", "BagOk")
    exe = c.cmd("growforest")

    def one(i):
        r = random.Random(c.seed * 100019 + i)
        while True:
            g = G.make_run(r, i, "oob")
            if g["bag"] != "none":
                break
        d = os.path.join(c.work, "run%d" % i)
        os.makedirs(d)
        G.add_outputs(r, g, d, "oob")
        g["tab"].afm(os.path.join(d, "train.fm"), r.random() < 0.3)
        cmd = [exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
        return G.trace(g, i, ["oob"], c.run(cmd, timeout=120, cwd=d))
    n = 600 if c.thorough else 110
    tr = G.pool(one, range(n))
    c.coverage["bags"] = {b: sum(t["bag"] == b for t in tr) for b in ("exact", "bound", "all")}

    # bags that cannot be told from the trees: the cases, their actual values and the error are still those of the data
    def open_bag(i):
        r = random.Random(c.seed * 100291 + i)
        while True:
            g = G.make_run(r, i, "oob")
            if g["bag"] == "none" and (i % 2 or g["boost"]):
                break
        d = os.path.join(c.work, "open%d" % i)
        os.makedirs(d)
        G.add_outputs(r, g, d, "oob")
        g["tab"].afm(os.path.join(d, "train.fm"), r.random() < 0.3)
        cmd = [exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
        t = G.trace(g, i, ["rows"], c.run(cmd, timeout=120, cwd=d))
        return dict(t, id="open-" + t["id"])
    opened = G.pool(open_bag, range(n // 2))

    def rows(t):
        return [e for e in t["ev"] if e["op"] == "oobpreds"][0]["rows"]

    def phantom(t):
        [x for x in rows(t) if x[1] == "NA"][0][1] = "L0" if t["kind"] == "cat" else "3"

    def lost(t):
        [x for x in rows(t) if x[1] != "NA"][0][1] = "NA"
        return t["bag"] == "exact"

    def other(t):
        [x for x in rows(t) if x[1] != "NA"][0][1] = "nosuchlabel"

    def tree(t):    # a tree whose votes were counted for the cases it trained on
        if t["bag"] != "exact" or t["kind"] != "num":
            return False
        x = [x for x in rows(t) if x[1] == "NA" and x[2] != "NA"][0]
        x[1] = x[2]

    def err(t):
        if t["bag"] != "exact" or t["kind"] != "cat":
            return False
        [e for e in t["ev"] if e["op"] == "ooberror"][0]["e"] = "-1"

    def prog(t):
        if t["bag"] != "exact" or t["kind"] != "cat":
            return False
        [e for e in t["ev"] if e["op"] == "progress"][0]["e"] = "-1"

    def order(t):
        x = rows(t)
        x[0], x[1] = x[1], x[0]
    neg = []
    for f in (phantom, lost, other, tree, err, prog, order):
        neg += corrupt(tr, f, f.__name__)
    def actual(t):
        x = [x for x in rows(t) if x[2] != "NA"][0]
        x[2] = x[2] + "1"

    def own(t):
        if t["kind"] != "num" or len([x for x in rows(t) if x[1] != "NA" and x[2] != "NA"]) < 2 or len({x[2] for x in rows(t)} - {"NA"}) < 2:
            return False
        if any(x[1] != "NA" and not re.match("-?[0-9/]+$", str(x[1])) for x in rows(t)):
            return False
        [e for e in t["ev"] if e["op"] == "ooberror"][0]["e"] = "-1"
    for f in (actual, own):
        neg += corrupt(opened, f, f.__name__)
    c.validate("RunTrace", tr + opened, negatives=neg)
    c.coverage["rule"] = "%d runs with out of bag reports: plain, sized, balanced and unbagged samples, missing values, 1..8 cores" % n
