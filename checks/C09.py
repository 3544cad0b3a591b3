from vlib import corrupt


def run(c):
    for k in ("cat", "num", "sum"):
        c.model("BallotMC", "BallotMC_%s.cfg" % k, min_states=5000, actions=["Vote", "TallyA"])
    tr = c.drive("ballots")

    def label(t):
        e = [e for e in t["ev"] if e["op"] == "tally" and t["kind"] == "cat" and e["got"] != "NA"][0]
        e["got"] += "x"

    def number(t):
        e = [e for e in t["ev"] if e["op"] == "tallynum" and e["got"] not in ("0", "nan")][0]
        e["got"] = e["got"] + "0" if "/" not in e["got"] else e["got"].split("/")[0]

    def phantom(t):
        e = [e for e in t["ev"] if e["op"] == "tally" and e["got"] == "NA"][0]
        e["got"] = "0"

    def vote(t):
        i = [i for i, e in enumerate(t["ev"]) if e["op"] == "vote" and t["kind"] == "sum" and e["w"] == "1" and e["pred"] not in ("0", "", "NA", "x1")][0]
        del t["ev"][i]

    def err(t):
        e = [e for e in t["ev"] if e["op"] == "error"][-1]
        e["got"] = "7"
    c.validate("BallotTrace", tr, negatives=corrupt(tr, label, "label") + corrupt(tr, number, "number") +
               corrupt(tr, phantom, "phantom") + corrupt(tr, vote, "vote") + corrupt(tr, err, "err", 8)[-1:])
    c.coverage["rule"] = "random sequences of votes (labels, numbers, junk; 12 weights incl. 0) and tallies on every kind of box"
