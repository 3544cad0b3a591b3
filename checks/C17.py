import tables


def run(c):
    def value(t):
        e = tables.snaps(t, "putstr")[0]
        x = e["snap"][e["o"] - 1]["cells"]
        x[e["i"] - 1] = ["4242"] if x[e["i"] - 1] != ["4242"] else []

    def denied(t):
        for e in tables.snaps(t, "putmissing"):
            e["snap"][e["o"] - 1]["has"] = False
            return
        return False

    def imputed(t):
        prev = None
        for e in t["ev"]:
            if e["op"] == "impute" and prev:
                b, a = prev[e["o"] - 1], e["snap"][e["o"] - 1]
                for i in range(len(b["cells"])):
                    if not b["cells"][i] and a["cells"][i]:
                        a["cells"][i] = ["987654"]
                        return
            prev = e.get("snap", prev)
        return False

    def text(t):
        e = [e for e in t["ev"] if e["op"] == "strings"][0]
        e["s"][0], e["num"][0] = "zz", "31337"

    def mean(t):
        [e for e in t["ev"] if e["op"] == "center"][0]["v"] = "424242"
    tables.histories(c, "C17", [("staysmissing", "SetRight"), ("noflag", "NeverDenied"), ("intonoflag", "NeverDenied"), ("imputeall", "SetRight")],
                     [value, denied, imputed, text, mean])
