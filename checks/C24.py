import os, random
from vlib import corrupt
import growruns as G
import tables


def run(c):
    exe = c.cmd("growforest")

    def one(i):
        r = random.Random(c.seed * 100057 + i)
        d = os.path.join(c.work, "run%d" % i)
        os.makedirs(d)
        make, trace = (G.make_perm, G.perm_trace) if i % 5 == 4 else (G.make_elig, G.elig_trace)
        g = make(r, i, d)
        g["tab"].afm(os.path.join(d, "train.fm"), r.random() < 0.3 and g["tab"].cols[0].name[:2] in ("N:", "C:", "B:"))
        cmd = ["-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
        return trace(g, i, c.run([exe] + cmd, timeout=120, cwd=d))
    n = 400 if c.thorough else 70
    tr = G.pool(one, range(n))

    def split(t, used=True):
        return [x for e in t["ev"] if e["op"] == "tree" for x in e["nodes"] if x["kind"] != "leaf"]

    def target(t):
        split(t)[-1]["feat"] = t["target"]["name"]

    def unused(t):
        if not t["must"]:
            return False
        for e in t["ev"]:
            if e["op"] == "tree":
                e["nodes"] = [dict(e["nodes"][0], kind="leaf", l=0, r=0, m=0)]

    def printed(t):
        [e for e in t["ev"] if e["op"] == "features"][0]["n"] += 1

    def ace(t):
        [e for e in t["ev"] if e["op"] == "ace"][0]["rows"][0]["name"] += ":SHUFFLED"

    def straight(t):
        if "perm" not in t["judge"] or t["kind"] != "num":
            return False
        [x for e in t["ev"] if e["op"] == "tree" for x in e["nodes"] if x["kind"] == "leaf"][0]["pred"] = "100000"
    neg = []
    for f in (target, unused, printed, ace, straight):
        neg += corrupt(tr, f, f.__name__)
    c.validate("RunTrace", tr, negatives=neg)

    def bag(t):
        e = tables.snaps(t, "shuffle", "shuffledcopy", "shufflecases")[0]
        f = e["snap"][e["o"] - 1 if e["op"] != "shuffledcopy" else -1]
        f["cells"][0] = ["77"] if f["cells"][0] != ["77"] else []

    def name(t):
        tables.snaps(t, "shuffledcopy")[0]["snap"][-1]["name"] += "!"

    def outside(t):
        e = tables.snaps(t, "shufflecases")[0]
        f = e["snap"][e["o"] - 1]
        if len(e["cases"]) == 0:
            f["cells"].reverse()
            return f["cells"] != f["cells"][::-1]
        return False

    def stuck(t):
        e = [e for e in t["ev"] if e["op"] == "stirred"][0]
        e["orders"] = [o for o in e["orders"] if o[0] != 1]
    tables.histories(c, "C24", [("shufflemarks", "Shuffled")], [bag, name, outside, stuck])
    c.coverage["rule"] = "%d growforest runs in which every eligible feature is used, with lists, patterns and contrasts; " % n + c.coverage["rule"]
