"""Histories of operations on features, judged for one property."""
from vlib import corrupt


def snaps(t, *ops):
    return [e for e in t["ev"] if "snap" in e and (not ops or e["op"] in ops)]


def histories(c, judge, wrong, negs):
    c.model("TableMC", "TableMC.cfg", min_states=5000, actions=["PutText", "Clear", "CopyOne", "Into", "CopyShuffled", "ShuffleSome", "ImputeOne", "EncodeOne"])
    c.model("TableMC", "TableMC_num.cfg", min_states=500)
    c.model("TableMC", "TableMC_three.cfg", min_states=1000, actions=["Extend", "EncodeOne"])
    if c.thorough:
        c.model("TableMC", "TableMCBig.cfg", min_states=100000, timeout=2000)
    for cfg, prop in wrong:
        c.model_fails("TableMC", "TableMC_%s.cfg" % cfg, prop)
    tr = c.drive("table")
    for t in tr:
        t["judge"] = [judge]
    neg = []
    for f in negs:
        neg += corrupt(tr, f, f.__name__)
    c.validate("TableTrace", tr, negatives=neg)
    c.coverage["rule"] = "%d histories of 8..25 operations on up to 16 features and a matrix of 1..8 of them, 1..13 cases; all features compared after each" % len(tr)
    return tr
