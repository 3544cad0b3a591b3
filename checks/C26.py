from vlib import corrupt


def proj(t):
    t["ev"] = [e for e in t["ev"] if e["op"] in ("pred", "after", "panic")]
    return t if any(e["op"] != "after" for e in t["ev"]) else None


def run(c):
    c.model("PredMC", "PredMCBig.cfg" if c.thorough else "PredMC.cfg", min_states=1000, actions=["Add", "Swap"], timeout=3000)
    c.model_fails("PredMC", "PredMC_unknown.cfg", "Unknowns")
    c.model_fails("PredMC", "PredMC_first.cfg", "Numbering")
    tr = [t for t in map(proj, c.drive("targets")) if t]

    def label(t):
        e = [e for e in t["ev"] if e["op"] == "pred"][0]
        others = [k for k in t["target"]["cats"] if k not in [t["target"]["val"][i - 1] for i in e["cases"]]]
        if t["target"]["type"] != "gini" or not others:
            return False
        e["got"] = e["again"] = others[0]

    def number(t):
        e = [e for e in t["ev"] if e["op"] == "pred"][0]
        if t["target"]["type"] not in ("num", "l1", "ordinal", "dentropy", "gradclass", "density") or e["num"] in ("nan", "inf", "0"):
            return False
        e["num"] = e["numagain"] = e["num"].split("/")[0] if "/" in e["num"] else e["num"] + "1"

    def again(t):
        e = [e for e in t["ev"] if e["op"] == "pred"][0]
        if t["target"]["type"] not in ("gini", "wrf"):
            return False
        e["again"] += "x"

    def after(t):
        t["ev"][-1]["same"] = False
    c.validate("ImpTrace", tr, negatives=corrupt(tr, label, "label") + corrupt(tr, number, "number") + corrupt(tr, again, "again") + corrupt(tr, after, "after"))
    c.coverage["rule"] = "random groups over random data for 18 types of target, each asked twice in different orders"
