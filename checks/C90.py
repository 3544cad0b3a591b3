import aceruns as A
import plainruns as P
from runs import pool
from vlib import corrupt


def run(c):
    c.model("WelchMC", min_states=2000, actions=["Test"])
    if c.thorough:
        c.model("WelchMC", "WelchMCBig.cfg", min_states=10000, actions=["Test"], timeout=2000)
    for v, inv in (("pooled", "Still"), ("biased", "Known2"), ("twosided", "Sides"), ("crossed", "Beaten")):
        c.model_fails("WelchMC", "WelchMC_%s.cfg" % v, inv)
    tr = c.drive("welch")

    def rel(key, by):
        def f(t):
            e = t["ev"][0]
            v = eval_rat(e[key])
            if v is None or abs(v) < 0.01:
                return False
            from vlib import rat
            e[key] = rat(v * by)
        f.__name__ = key
        return f

    def eval_rat(s):
        from fractions import Fraction
        return None if s in ("nan", "inf", "-inf") else float(Fraction(s))

    def other(t):
        e = t["ev"][0]
        v = eval_rat(e["p"])
        if v is None or abs(v - 0.5) < 0.05 or len(set(e["a"])) < 2:
            return False
        from vlib import rat
        e["p"] = rat(1 - v)
    neg = []
    for f in (rel("v", 1.01), rel("bm", 1.01), rel("bv", 1.01), other):
        neg += corrupt(tr, f, f.__name__)

    exe = c.cmd("growforest", tags="verif")
    n = 500 if c.thorough else 90
    runs = pool(lambda i: A.ace_run(c, exe, i), range(n))

    def last(t):
        e = t["ev"][-1]
        return e if e["op"] == "ace" else None

    def order(t):
        e = last(t)
        if not e or len(e["rows"]) < 3:
            return False
        e["rows"].reverse()

    def swapped(t):
        e = last(t)
        if not e or not e["reported"]:
            return False
        e["real"], e["fake"] = e["fake"], e["real"]

    def kept(t):
        e = last(t)
        if not e or e["cutoff"] == "0":
            return False
        e["kept"] += len(e["names"])

    def carried(t):
        e = last(t)
        if not e or e["cutoff"] != "0":
            return False
        e["used"] = e["used"][1:]
        return len(e["used"]) >= 0 and any(x["name"] for x in e["rows"])

    def still(t):
        e = [x for x in t["ev"] if x["op"] == "contrast" and x["distinct"] > 8 and len(x["fakes"]) > 1]
        if not e:
            return False
        e[0]["fakes"] = [e[0]["fakes"][0]] * len(e[0]["fakes"])

    def lost(t):
        e = [x for x in t["ev"] if x["op"] == "contrast" and x["distinct"] > 1][:1]
        if not e:
            return False
        f = e[0]["fakes"][-1]
        f[:] = [f[0]] * len(f)
    for f in (order, swapped, kept, carried, still, lost):
        neg += corrupt(runs, f, f.__name__)
    c.validate("WelchTrace", tr + runs, negatives=neg)
    # without bagging, the importances of the last forest are the gains of its saved trees
    plain = c.cmd("growforest")
    tr2 = [t for t in pool(lambda i: P.plain_run(c, plain, exe, i, ace=True), range(800 if c.thorough else 150)) if t["ev"][-1]["op"] != "said"]

    def total(t):
        x = [x for x in t["ev"][-1]["rows"] if x["sum"] not in ("0", "nan")][0]
        x["sum"] = str(2 * P.Fraction(x["sum"]) + 1)
    c.validate("PlainTrace", tr2, negatives=corrupt(tr2, total, "total"))
    c.coverage["rule"] = "%d pairs of groups tested both ways; %d growforest -ace runs, with and without a cutoff" % (len(tr), n)
    c.assumptions.append("the build with the tag verif only adds a record of the importances and contrasts")
    c.assumptions.append("between whole degrees of freedom the p value is only held between the two around it")
