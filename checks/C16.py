import tables


def run(c):
    def flip(t):
        e = tables.snaps(t, "encode")[0]
        f = e["snap"][-1]
        k = [i for i, x in enumerate(f["cells"]) if x][0]
        f["cells"][k] = ["17"]
        return len([x for x in f["cells"] if x]) > 1 and f["name"].find("==") > 0

    def hot(t):
        e = tables.snaps(t, "onehot")[0]
        f = e["snap"][-1]
        k = [i for i, x in enumerate(f["cells"]) if x][0]
        f["cells"][k] = ["maybe"]

    def lost(t):
        e = [e for e in t["ev"] if e["op"] == "matrix"][0]
        e["cols"].pop()

    def missing(t):
        e = [e for e in t["ev"] if e["op"] == "matrix"][0]
        f = e["cols"][0]
        f["cells"][0] = [] if f["cells"][0] else ["1"]
    tables.histories(c, "C16", [("droplast", "Encoded"), ("encodeshares", "Framed")], [flip, hot, lost, missing])
