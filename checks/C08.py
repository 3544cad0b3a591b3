from vlib import corrupt


def run(c):
    c.model("SFFileMC", "SFFileBig.cfg" if c.thorough else None, min_states=10000, actions=["CallTree", "CallForest"])
    tr = c.drive("forestio", ["-gen", c.generate("SFGen", "SFGenBig.cfg" if c.thorough else None)])

    def lose(t):
        i = [i for i, e in enumerate(t["ev"]) if e["op"] in ("readtree", "readforest")][0]
        if len(t["ev"]) < 4:
            return False
        del t["ev"][i]

    def quiet(t):
        e = [e for e in t["ev"] if e.get("err") == "error"][0]
        e["err"] = "eof"

    def swap(t):
        e = [e for e in t["ev"] if e["op"] == "readtree" and len(e["tree"]) and len(e["tree"][0]["nodes"]) > 1][0]
        e["tree"][0]["nodes"].pop()
    c.validate("SFTrace", tr, negatives=corrupt(tr, lose, "lose") + corrupt(tr, quiet, "quiet") + corrupt(tr, swap, "swap"))
    c.coverage["rule"] = "every sequence of up to 4 (5 in thorough) headers, trees and malformed lines, read tree by tree and forest by forest, with and without final newline"
