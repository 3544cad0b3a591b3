import os, random
from vlib import corrupt
import growruns as G
import plainruns as P


def run(c):
    c.model("UseMC", "UseMCBig.cfg" if c.thorough else "UseMC.cfg", min_states=5000, actions=["Split", "TreeDone"], timeout=2000)
    c.model_fails("UseMC", "UseMC_root.cfg", "Accounted")
    c.model_fails("UseMC", "UseMC_keep.cfg", "Accounted")
    exe = c.cmd("growforest")

    def one(i):
        r = random.Random(c.seed * 100043 + i)
        while True:
            g = G.make_run(r, i, "imp")
            if "-jungle" not in g["args"]:
                break
        d = os.path.join(c.work, "run%d" % i)
        os.makedirs(d)
        G.add_outputs(r, g, d, "imp")
        if r.random() < 0.15:
            g["args"] += ["-contrastall"]
            new = [x + ":SHUFFLED" for x in g["features"]]
            g["eligible"] = g["eligible"] + new
            g["features"] = g["features"] + new
        g["tab"].afm(os.path.join(d, "train.fm"))
        cmd = [exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
        return G.trace(g, i, ["imp", "elig"], c.run(cmd, timeout=120, cwd=d))
    n = 400 if c.thorough else 90
    tr = G.pool(one, range(n))

    def rows(t, cond=lambda x: True):
        return [x for e in t["ev"] if e["op"] == "importance" for x in e["rows"] if cond(x)]

    def count(t):
        x = rows(t)[0]
        x["count"] = str(int(x["count"]) + 1)

    def depth(t):
        x = rows(t, lambda x: x["uses"] != "0")[0]
        x["depth"] = "77"

    def uses(t):
        x = rows(t, lambda x: x["uses"] != "0")[0]
        x["uses"] = str(int(x["uses"]) + 1)

    def per(t):
        x = rows(t, lambda x: x["uses"] != "0" and x["mean"] not in ("nan", "0"))[0]
        x["pertree"] = "12345"
    neg = []
    for f in (count, depth, uses, per):
        neg += corrupt(tr, f, f.__name__)
    c.validate("RunTrace", tr, negatives=neg)

    tr = c.drive("grow")
    neg = []

    def first(t, cond=lambda x: True):
        if t["ev"][0]["op"] != "grow":
            return None
        return [x for x in t["ev"][0]["imp"] if cond(x)][0]

    def lcount(t):
        first(t)["count"] += 1

    def lmean(t):
        x = first(t, lambda x: x["count"] > 0)
        x["mean"] = "1000000"
        return t["ev"][0]["plain"]

    def ldepth(t):
        first(t, lambda x: x["depth"] > 0)["depth"] += 9
    for f in (lcount, lmean, ldepth):
        neg += corrupt(tr, f, f.__name__)
    c.validate("UseTrace", tr, negatives=neg)
    # without bagging, the gains of the saved trees' splits are what is reported
    ace = c.cmd("growforest", tags="verif")
    tr = [t for t in G.pool(lambda i: P.plain_run(c, exe, ace, i), range(1500 if c.thorough else 300)) if t["ev"][-1]["op"] == "total"]

    def total(t):
        x = [x for x in t["ev"][-1]["rows"] if x["sum"] not in ("0", "nan")][0]
        x["sum"] = "1000000"
    c.validate("PlainTrace", tr, negatives=corrupt(tr, total, "total"))
    c.coverage["rule"] = "%d growforest runs with importance files; trees and jungles grown one after another into one set of means" % n
