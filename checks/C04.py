from vlib import corrupt


def run(c):
    c.model("SearchMC", "SearchMCBig.cfg" if c.thorough else "SearchMC.cfg", min_states=5000, actions=["Skip", "Eval", "End"], timeout=3000)
    c.model_fails("SearchMC", "SearchMC_stop.cfg", "Optimal")
    c.model_fails("SearchMC", "SearchMC_high.cfg", "Faithful")
    tr = c.drive("search")
    plain = [t for t in tr if t["target"]["type"] in ("gini", "entropy", "num", "hdist", "regret")]

    def dec(t):
        e = [e for e in t["ev"] if e["op"] == "search" and e["found"]][0]
        e["dec"] = e["dec"].split("/")[0] if "/" in e["dec"] else e["dec"] + "1"

    def none(t):
        e = [e for e in t["ev"] if e["op"] == "search" and e["found"] and e["optimal"] and e["dec"] > "1/1"][0]
        if not any(t["col"]["miss"]) and t["col"]["kind"] == "cat":
            e["found"] = False
            return True
        return False

    def leaf(t):
        e = [e for e in t["ev"] if e["op"] == "search" and e["found"]][0]
        e["leaf"] = len(e["cases"])

    def side(t):
        e = [e for e in t["ev"] if e["op"] == "search" and e["found"] and t["col"]["kind"] == "num"][0]
        e["value"] = "1e400"

    def const(t):
        e = [e for e in t["ev"] if e["op"] == "search" and e["found"] and e["optimal"] and t["col"]["kind"] == "cat"][0]
        e["constant"] = True
    c.validate("SearchTrace", tr, negatives=corrupt(plain, dec, "dec") + corrupt(plain, none, "none") + corrupt(plain, leaf, "leaf") +
               corrupt(plain, side, "side") + corrupt(plain, const, "const"))
    c.coverage["rule"] = "random columns (ties, missing, neighbouring doubles, great magnitudes, 1..40 categories) against 15 types of target"
