import chanceruns as H
from runs import pool
from vlib import corrupt


def run(c):
    c.model("ChanceMC", "ChanceMCBig.cfg" if c.thorough else "ChanceMC.cfg", min_states=5000, actions=["Choose"], timeout=2000)
    for flaw in ("naive", "cyclic", "short", "skipped", "strata", "cases", "shared", "modulo", "own", "open", "low"):
        c.model_fails("ChanceMC", "ChanceMC_%s.cfg" % flaw, "Exact")
    c.model("SampleMC", min_states=500, actions=["Next"])
    tr = c.drive("chances")
    exe = c.cmd("growforest")
    n, trees = (128, 60000) if c.thorough else (32, 20000)
    tr += pool(lambda i: H.chance_run(c, exe, i, trees), range(n))

    def ev(t, op):
        return [e for e in t["ev"] if e["op"] == op and len(e["counts"]) > 1][0]

    def moved(op):
        def f(t):   # a quarter of one result came out as another
            e = ev(t, op)
            a, b = sorted(e["counts"], key=lambda k: -e["counts"][k])[:2]
            m = e["counts"][a] // 4
            e["counts"][a] -= m
            e["counts"][b] += m
        f.__name__ = "moved_" + op
        return f

    def missing(t):
        e = ev(t, "chances")
        a, b = sorted(e["counts"], key=lambda k: e["counts"][k])[:2]
        m = e["counts"].pop(a)
        if e["s"]["kind"] in ("knownbag", "secondary", "balanced") or m < 400:
            return False
        e["counts"][b] += m

    def odd(t):
        e = ev(t, "chances")
        k = sorted(e["counts"])[0]
        e["counts"]["99 " + k] = 1
    neg = []
    for f in (moved("chances"), moved("seen"), missing, odd):
        neg += corrupt(tr, f, f.__name__)
    c.validate("ChanceTrace", tr, negatives=neg)
    c.coverage["rule"] = "counts of every result of every sampler, candidate search, shuffle and contrast over 20000 to 800000 repetitions"
    c.assumptions.append("math/rand yields independent uniform numbers; a deviation below Bernstein's bound (about 8 standard deviations) is not seen")
