from vlib import corrupt


def run(c):
    c.model("SampleMC", min_states=500, actions=["Next"])
    if c.thorough:
        c.model("SampleMC", "SampleMCBig.cfg", min_states=2000, actions=["Next"], timeout=2000)
    c.model_fails("SampleMC", "SampleMC_short.cfg", "Fair")
    c.model_fails("SampleMC", "SampleMC_naive.cfg", "Fair")
    tr = c.drive("samples")

    def of(t, op, cond=lambda e: True):
        return [e for e in t["ev"] if e["op"] == op and cond(e)][0]

    def size(t):
        of(t, "repl")["n"] += 1

    def moved(t):
        e = of(t, "first", lambda e: e["k"] > 0)
        e["after"][-1] += 100

    def twice(t):
        e = of(t, "first", lambda e: len(e["got"]) > 1)
        e["got"][1] = e["got"][0]

    def never(t):
        of(t, "firstshare", lambda e: e["n"] < e["len"])["counts"][0] = 0

    def rare(t):
        e = of(t, "balshare", lambda e: len(set(e["cls"]) - {"NA"}) > 1)
        i = [i for i, x in enumerate(e["cls"]) if x != "NA"][0]
        e["counts"][i] = 0

    def stratum(t):
        e = of(t, "secshare")
        i = [i for i in range(len(e["cls"])) if "NA" not in (e["cls"][i], e["str"][i])][0]
        e["counts"][i] *= 10

    def unknown(t):
        e = of(t, "balanced", lambda e: e["got"])
        e["cls"][e["got"][0] - 1] = "NA"

    def bag(t):
        e = of(t, "bag", lambda e: e["got"])
        e["miss"][e["got"][0] - 1] = True
    neg = []
    for f in (size, moved, twice, never, rare, stratum, unknown, bag):
        neg += corrupt(tr, f, f.__name__)
    c.validate("SampleTrace", tr, negatives=neg)
    c.coverage["rule"] = "single samples of every sampler, and shares over hundreds of samples per case"
    c.assumptions.append("math/rand draws uniformly; shares are compared within a factor of three")
