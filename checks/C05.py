from vlib import corrupt


def run(c):
    c.model("CandMC", "CandMCBig.cfg" if c.thorough else "CandMC.cfg", min_states=5000,
            actions=["Visit", "Skip", "Draw", "Stop", "Split", "Leaf"], timeout=3000)
    c.model_fails("CandMC", "CandMC_noguard.cfg", "InRange")
    c.model_fails("CandMC", "CandMC_breadth.cfg", "Accounted")
    c.model_fails("CandMC", "CandMC_norestore.cfg", "Accounted")
    tr = c.drive("cands")

    def search(t, cond=lambda e: True):
        return [e for e in t["ev"] if e["op"] == "search" and e["mode"] == "plain" and not e["pure"] and cond(e)][0]

    def lost(t):
        search(t)["after"][0] = 77

    def twice(t):
        e = search(t, lambda e: e["tries"])
        e["tries"].append(dict(e["tries"][0]))

    def less(t):
        e = search(t, lambda e: e["nc"] == 0 and e["tries"])
        e["tries"].pop()

    def count(t):
        search(t)["ncafter"] += 1

    def best(t):
        e = search(t, lambda e: e["found"])
        e["dec"] = "1/3"

    def none(t):
        search(t, lambda e: e["found"])["found"] = False

    def fair(t):
        e = [e for e in t["ev"] if e["op"] == "fair"][0]
        e["counts"][-1] = 0

    def known(t):
        e = [e for e in t["ev"] if e["op"] == "visit" and e["tries"]]
        for a, b in zip(e, e[1:]):
            if set(b["cases"]) < set(a["cases"]) and b["tries"]:
                b["tries"][0]["f"] = a["tries"][0]["f"]
                a["tries"][0]["constant"] = True
                return True
        return False

    def judged(t, modes, cond=lambda e: True):
        return [e for e in t["ev"] if e["op"] == "search" and e["mode"] in modes and not e["pure"] and cond(e)][0]

    def raised(t):
        judged(t, ("vet", "oob", "both"), lambda e: e["found"])["dec"] = "0.3333777"

    def elsewhere(t):
        e = judged(t, ("vet", "both"), lambda e: any(x["vet"] for x in e["tries"]))
        [x for x in e["tries"] if x["vet"]][0]["vet"][0]["cases"].pop()

    def withheld(t):
        judged(t, ("oob",), lambda e: e["found"])["found"] = False

    neg = []
    for f in (raised, elsewhere, withheld, lost, twice, less, count, best, none, fair, known):
        neg += corrupt(tr, f, f.__name__)
    c.validate("CandTrace", tr, negatives=neg)
    # a feature that could split a node shows in the trees grown from all candidates
    full = []
    for t in c.drive("grow"):
        t["ev"] = [dict(e) for e in t["ev"] if e["op"] == "panic" or e.get("full")]
        for e in t["ev"]:
            e.pop("again", None)
        if t["ev"]:
            full.append(t)
    c.validate("GrowTrace", full)
    c.coverage["rule"] = "nested searches over scripted features, searches over real features in all modes, whole trees and jungles"
