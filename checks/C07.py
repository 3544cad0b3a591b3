from vlib import corrupt


def run(c):
    c.model("SFFileMC", min_states=10000, actions=["CallTree", "CallForest"])
    tr = c.drive("forestio")

    def leaf(t):
        t["ev"][1]["forest"][0]["trees"][-1]["nodes"][-1]["pred"] += "x"

    def weight(t):
        t["ev"][0]["lines"][-1]["node"]["pred"] += "x"

    def drop(t):
        e = t["ev"][1]["forest"][0]
        if len(e["trees"]) < 2:
            return False
        e["trees"].pop()
    c.validate("SFTrace", tr, negatives=corrupt(tr, leaf, "leaf") + corrupt(tr, weight, "weight") + corrupt(tr, drop, "drop"))
    c.coverage["rule"] = "random forests with missing branches, odd names and labels, extreme thresholds and weights; grown forests; the written file, the read back forest and its votes"
