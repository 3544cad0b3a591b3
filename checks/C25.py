from vlib import corrupt

ACTS = ("Finished ToInsertion ToHeap ToPartition UpLess UpEqual UpDone DownMore DownEqual Exchange Gather "
        "InsSwap InsNext InsDone Sift BuildNext BuildDone PopNext HeapDone").split()


def run(c):
    c.model("IntroSort", min_states=40000, actions=ACTS)
    if c.thorough:
        c.model("IntroSort", "IntroSortBig.cfg", min_states=1000000, actions=ACTS)
    tr = c.drive("sorts", ["-gen", c.generate("SortGen")])

    def unsorted(t):
        e = t["ev"][0]
        if e["n"] < 3 or e["vs1"][0] == e["vs1"][e["n"] - 1]:
            return False
        for k in ("vs1", "cs1"):
            e[k][0], e[k][e["n"] - 1] = e[k][e["n"] - 1], e[k][0]

    def mispair(t):
        e = t["ev"][0]
        if e["n"] < 3 or e["vs1"][0] == e["vs1"][1]:
            return False
        e["cs1"][0], e["cs1"][1] = e["cs1"][1], e["cs1"][0]

    def tail(t):
        e = t["ev"][0]
        if e["n"] >= len(e["vs1"]):
            return False
        e["vs1"][-1] += "1"
    c.validate("SortTrace", tr, negatives=corrupt(tr, unsorted, "order") + corrupt(tr, mispair, "pair") + corrupt(tr, tail, "tail"))
    c.coverage["rule"] = "every array over 3 values up to length 5; 11 patterns (incl. adversarial) at every length to 48 and beyond"
