from vlib import corrupt


def run(c):
    c.model("RoutingMC", min_states=3000, actions=["Arrive", "Descend"])
    gen = c.generate("RoutingGen")
    tr = c.drive("route", ["-gen", gen])

    def other_leaf(t):
        e = [e for e in t["ev"] if e["op"] in ("leaves", "vote", "partition") and any(len(g) for g in e.get("got", []))]
        if not e:
            return False
        g = next(g for g in e[0]["got"] if g)
        g[0] = g[0] + "x"

    def twice(t):
        e = [e for e in t["ev"] if e["op"] == "vote"][0]
        g = [g for g in e["got"] if g]
        if not g:
            return False
        g[0].append(g[0][0])

    def dropped(t):
        e = [e for e in t["ev"] if e["op"] == "leaves"][0]
        i = [i for i, g in enumerate(e["got"]) if g]
        if not i:
            return False
        e["got"][i[0]] = []
    neg = corrupt(tr, other_leaf, "leaf") + corrupt(tr, twice, "twice") + corrupt(tr, dropped, "drop")
    c.validate("RouteTrace", tr, negatives=neg)
    c.coverage["rule"] = "trees enumerated by RoutingGen plus random, grown, reordered and recoded ones; every traversal of each"
