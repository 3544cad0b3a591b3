import boostruns


def run(c):
    c.model("BoostMC", min_states=20000, actions=["Round"])
    c.model("BoostMC", "BoostMC_cost.cfg", min_states=20000, actions=["Round"])
    if c.thorough:
        c.model("BoostMC", "BoostMCBig.cfg", min_states=100000, actions=["Round"], timeout=3000)
    for v, inv in (("nonorm", "SumOne"), ("inverted", "Half"), ("bagonly", "Half"), ("missing", "MissingZero"), ("worse", "Margins")):
        c.model_fails("BoostMC", "BoostMC_%s.cfg" % v, inv)
    boostruns.check(c, ("ada", "adacost", "numada"), "C19")
