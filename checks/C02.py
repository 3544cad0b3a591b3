from vlib import corrupt


def run(c):
    c.model("ThreeWay", "ThreeWayBig.cfg" if c.thorough else "ThreeWay.cfg", min_states=3000,
            actions=["SkipMissing", "KeepLeft", "MoveLeft", "MoveRight"])
    tr = c.drive("splits", ["-gen", c.generate("ThreeWayGen")])

    def swap(t):
        e = t["ev"][-1]
        e["l"], e["r"] = e["r"], e["l"]
        return bool(e["l"] or e["r"])

    def lose(t):
        e = [e for e in t["ev"] if e["op"] == "points" and len(e["cases"]) > 2][-1]
        e["after"][0] = e["after"][1] if e["after"][1] != e["after"][0] else 99

    def shift(t):
        e = [e for e in t["ev"] if e["op"] == "points" and e["li"] > 0][-1]
        e["li"] -= 1
    c.validate("SplitTrace", tr, negatives=corrupt(tr[-300:], swap, "swap") + corrupt(tr[-300:], lose, "lose") + corrupt(tr, shift, "shift"))
    c.coverage["rule"] = "every pattern of sides up to 5 cases on 4 kinds of feature; found and constructed splits on random columns"
