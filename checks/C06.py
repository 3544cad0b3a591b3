from vlib import corrupt


def proj(t):
    t["ev"] = [e for e in t["ev"] if e["op"] in ("imp", "counts", "start", "move", "panic")]
    return t if t["ev"] else None


def run(c):
    c.model("ImpurityMC", "ImpurityMCBig.cfg" if c.thorough else "ImpurityMC.cfg", min_states=5000, actions=["Start", "Move"], timeout=3000)
    c.model_fails("ImpurityMC", "ImpurityMC_forget.cfg", "GiniAgrees")
    tr = [t for t in map(proj, c.drive("targets")) if t]

    def change(op):
        def f(t):
            e = [e for e in t["ev"] if e["op"] == op][-1]
            if e["got"] in ("nan", "inf", "0", "-1"):
                return False
            e["got"] = e["got"].split("/")[0] if "/" in e["got"] else e["got"] + "1"
        return f

    def skip(t):
        i = [i for i, e in enumerate(t["ev"]) if e["op"] == "move" and i + 1 < len(t["ev"]) and t["ev"][i + 1]["op"] == "move"][0]
        if t["target"]["type"] not in ("gini", "entropy", "num") or t["ev"][i]["got"] == t["ev"][i + 1]["got"]:
            return False
        del t["ev"][i]
    c.validate("ImpTrace", tr, negatives=corrupt(tr, change("imp"), "imp") + corrupt(tr, change("counts"), "counts") +
               corrupt(tr, change("move"), "move") + corrupt(tr, skip, "skip"))
    c.coverage["rule"] = "random groups and left-to-right scans over random data for 17 types of target; values up to 10^4"
