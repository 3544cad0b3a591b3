from vlib import corrupt
import formats as F
from runs import pool


def run(c):
    c.model("FormatMC", min_states=100000, actions=["Read", "Finish"])
    if c.thorough:
        c.model("FormatMC", "FormatMCBig.cfg", min_states=500000, actions=["Read", "Finish"], timeout=3000)
    for v in ("nofinal", "rawquotes", "rawnames", "blankskipped", "zerobased", "sniffless"):
        c.model_fails("FormatMC", "FormatMC_%s.cfg" % v, "RoundTrip")
    tr = F.library(c, 4000 if c.thorough else 320)
    exe = c.cmd("toafm")
    tr += pool(lambda i: F.toafm_run(c, exe, i), range(1500 if c.thorough else 200))

    def evs(t, op):
        return [e for e in t["ev"] if e["op"] == op]

    def value(t):
        cells = [x for col in evs(t, "parse")[0]["table"]["cols"] for x in col["cells"] if x]
        cells[-1][0] += "1"

    def missing(t):
        col = [col for col in evs(t, "parse")[0]["table"]["cols"] if [] in col["cells"]][0]
        col["cells"][col["cells"].index([])] = ["0"]

    def lost(t):
        for col in evs(t, "parse")[0]["table"]["cols"]:
            col["cells"].pop()

    def kind(t):
        col = evs(t, "parse")[0]["table"]["cols"][-1]
        col["kind"] = "cat" if col["kind"] == "num" else "num"

    def lookup(t):
        l = evs(t, "parse")[0]["table"]["lookup"]
        l[0][1], l[1][1] = l[1][1], l[0][1]

    def written(t):
        e = [e for e in evs(t, "write") if e["fmt"] == "afm" and len(e["cases"]) > 1 and "N:" not in e["text"].split("\n")[0]][-1]
        e["cases"] = e["cases"][1:]

    def converted(t):
        e = evs(t, "toafm")[0]
        if e["svm"] or e["anon"] or len(e["text"].split("\n")) < 3:
            return False
        e["text"] = "\n".join(e["text"].split("\n")[:-2]) + "\n"

    def anonymous(t):
        e = evs(t, "toafm")[0]
        if not e["anon"]:
            return False
        e["text"] = e["text"].replace("\n", "0\n")
    neg = []
    for f in (value, missing, lost, kind, lookup, written, converted, anonymous):
        neg += corrupt(tr, f, f.__name__)
    c.validate("FormatTrace", tr, negatives=neg)
    c.coverage["texts"] = {k: sum(e["op"] == "parse" and e["fmt"] == k for t in tr for e in t["ev"]) for k in ("afm", "arff", "svm")}
    c.coverage["rule"] = "random texts (quoting, missing tokens, blank lines, CRLF, no final newline, zip), written in every format and read back; toafm runs with blacklists, libSVM and anonymous output"
