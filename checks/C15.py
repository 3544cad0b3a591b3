import tables


def run(c):
    def shared(t):     # something else changes with it
        e = tables.snaps(t, "putstr", "append", "copy")[0]
        f = e["snap"][0 if e["o"] != 1 else 1]
        f["cells"][0] = ["123"] if f["cells"][0] != ["123"] else []

    def touched(t):
        e = [e for e in tables.snaps(t) if e["op"].startswith("learn")][0]
        e["snap"][0]["cats"].append("zzz")

    def order(t):
        e = tables.snaps(t, "write", "arff", "svm", "svmcases", "encoded")[0]
        e["matrix"]["labels"][0] = "other"

    def unlike(t):
        e = tables.snaps(t, "copy")[-1]
        e["snap"][-1]["cells"].append(["1"])
    tables.histories(c, "C15", [("sharemissing", "Framed"), ("sharelabels", "Framed"), ("encodeshares", "Framed")],
                     [shared, touched, order, unlike])
