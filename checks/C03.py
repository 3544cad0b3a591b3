from vlib import corrupt


def run(c):
    c.model("GrowMC", "GrowMCBig.cfg" if c.thorough else "GrowMC.cfg", min_states=5000, actions=["Split", "Leaf", "Again"], timeout=3000)
    c.model_fails("GrowMC", "GrowMC_stale.cfg", "Contract")
    c.model_fails("GrowMC", "GrowMC_missing.cfg", "Contract")
    tr = c.drive("grow")

    def first(t, cond):
        e = [e for e in t["ev"] if e["op"] == "grow" and cond(e)][0]
        e.pop("again", None)
        return e

    def split(e):
        return e["nodes"][0]["kind"] != "leaf"

    def leaf(t):
        first(t, split)["leaf"] = 50

    def cand(t):
        e = first(t, split)
        e["cands"] = [x for x in e["cands"] if x != e["nodes"][0]["feat"]]

    def child(t):
        e = first(t, split)
        e["nodes"][0]["r"] = 0

    def pred(t):
        if t["target"]["type"] != "num":
            return False
        e = first(t, split)
        n = [n for n in e["nodes"] if n["kind"] == "leaf"][-1]
        n["num"] = n["num"].split("/")[0] + "7"

    def depth(t):
        e = first(t, split)
        e["depth"] = 1
        return any(n["kind"] != "leaf" for n in e["nodes"][1:])

    def missing(t):
        e = first(t, lambda e: any(n["m"] for n in e["nodes"]))
        e["missing"] = False

    def again(t):
        e = [e for e in t["ev"] if e["op"] == "grow" and "again" in e and split(e)][0]
        e["again"][0]["feat"] = "N:other"
    neg = []
    for f in (leaf, cand, child, pred, depth, missing, again):
        neg += corrupt(tr, f, f.__name__)
    c.validate("GrowTrace", tr, negatives=neg)
    c.coverage["rule"] = "trees and jungles grown with random options on random tables of 2..20 cases against 16 types of target, trees and allocations reused"
