from vlib import corrupt
import foldruns as F
from runs import pool


def run(c):
    c.model("FoldMC", min_states=100000, actions=["Deal", "Write"])
    if c.thorough:
        c.model("FoldMC", "FoldMCBig.cfg", min_states=1000000, actions=["Deal", "Write"], timeout=3000)
    for v, inv in (("floor", "Once"), ("lump", "Even"), ("overlap", "Once"), ("leak", "Complement"), ("earlier", "Complement")):
        c.model_fails("FoldMC", "FoldMC_%s.cfg" % v, inv)
    exe = c.cmd("nfold")
    tr = pool(lambda i: F.fold_run(c, exe, i), range(2000 if c.thorough else 300))

    def afm(t):
        return [e for e in t["ev"] if e["op"] == "fold" and e["fmt"] == "afm"]

    def arff(t):
        return [e for e in t["ev"] if e["op"] == "fold" and e["fmt"] != "afm"]

    def leak(t):    # a fold trained on what another is trained on
        a = afm(t)
        a[0]["train"] = a[1]["train"]
        return a[0]["test"] != a[1]["test"]

    def twice(t):
        a = afm(t)
        a[0]["test"] = a[1]["test"]
        return len(a[0]["test"].split("\n")[0].split("\t")) > 1

    def line(t):
        a = arff(t)[0]
        ls = a["train"].rstrip("\n").split("\n")
        a["train"] = "\n".join(ls[:-1]) + "\n"
        return len(ls) > 1 and "@DATA" not in ls[-1].upper()

    def value(t):
        a = arff(t)[0]
        s = a["test"].rstrip("\n")
        a["test"] = s + "5\n"
        return bool(s) and "@DATA" not in s.split("\n")[-1].upper()

    def column(t):
        a = afm(t)[0]
        a["test"] = "\n".join(a["test"].split("\n")[:-2]) + "\n"

    def uneven(t):
        """a case moved from one fold to another"""
        a = afm(t)
        if len(a) != 2 or len(t["opts"]["formats"]) > 1:
            return False
        x, y = (e["test"].rstrip("\n").split("\n") for e in a)
        x, y = [l.split("\t") for l in x], [l.split("\t") for l in y]
        k = len(y[0]) - 2
        if k < 1:
            return False
        x2 = [p + q[1:1 + k] for p, q in zip(x, y)]
        y2 = [q[:1] + q[1 + k:] for q in y]
        a[0]["test"], a[1]["test"] = ("\n".join("\t".join(r) for r in z) + "\n" for z in (x2, y2))
        a[1]["train"], a[0]["train"] = a[0]["test"], a[1]["test"]
    neg = []
    for f in (leak, twice, line, value, column, uneven):
        neg += corrupt(tr, f, f.__name__)
    c.validate("FoldTrace", tr, negatives=neg)
    c.coverage["files"] = sum(2 for t in tr for e in t["ev"] if e["op"] == "fold")
    c.coverage["rule"] = "random matrices (1..31 cases), 1..7 folds, all formats, options alone and together; every file read by the specification"
