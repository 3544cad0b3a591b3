import os, random
from vlib import corrupt
import judgeruns as J
from runs import pool


def run(c):
    c.model("JudgeMC", "JudgeMCBig.cfg" if c.thorough else "JudgeMC.cfg", min_states=5000, actions=["Take", "Leave"], timeout=1500)
    c.model_fails("JudgeMC", "JudgeMC_own.cfg", "Honest")
    # searches on their own
    tr = [dict(t, ev=t["ev"][:1]) for t in c.drive("cands") if t["id"].startswith("real") and
          (t["ev"][0]["op"] == "panic" or t["ev"][0].get("mode") in ("vet", "oob", "both"))]

    def judged(t, modes, cond=lambda e: True):
        return [e for e in t["ev"] if e["op"] == "search" and e["mode"] in modes and not e["pure"] and cond(e)][0]

    def raised(t):
        judged(t, ("vet", "oob", "both"), lambda e: e["found"])["dec"] = "0.3333777"

    def elsewhere(t):
        e = judged(t, ("vet", "both"), lambda e: any(x["vet"] for x in e["tries"]))
        [x for x in e["tries"] if x["vet"]][0]["vet"][0]["cases"].pop()

    def withheld(t):
        judged(t, ("oob",), lambda e: e["found"])["found"] = False
    neg = []
    for f in (raised, elsewhere, withheld):
        neg += corrupt(tr, f, f.__name__)
    c.validate("CandTrace", tr, negatives=neg)

    # forests of one tree by the command
    exe = c.cmd("growforest")

    def one(i):
        r = random.Random(c.seed * 100057 + i)
        d = os.path.join(c.work, "run%d" % i)
        os.makedirs(d)
        kind = ["many", "few", "made", "several", "many", "few"][i % 6]
        g = J.made(r, i, d) if kind == "made" else J.several(r, i, d) if kind == "several" else J.make(r, i, d, few=kind == "few")
        res = c.run([exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"], timeout=120, cwd=d)
        return J.made_trace(g, i, res) if kind == "made" else J.several_trace(g, i, res) if kind == "several" else J.trace(g, i, res)
    tr = pool(one, range(1800 if c.thorough else 300))

    def row(t, cond=lambda e: True):
        e = [e for e in t["ev"] if e["op"] == "judged" and cond(e)][0]
        used = {x["feat"] for x in e["nodes"]}
        return [x for x in e["rows"] if x["name"] in used and x["mean"] != "0"][0]

    def more(t):
        row(t)["mean"] = "7654321/1000"

    def unvetted(t):
        x = row(t, lambda e: e["vet"] and e["few"])
        x["mean"] = str(float(eval(x["mean"])) * 0.99 - 0.01)

    def unmade(t):
        e = [e for e in t["ev"] if e["op"] == "made"][0]
        e["nodes"] = e["nodes"][:1]
    def odd(t):
        e = [e for e in t["ev"] if e["op"] == "several" and any(x[0]["kind"] != "leaf" for x in e["trees"])][0]
        e["mean"] = "7654321/1000"
    neg = []
    for f in (odd, more, unvetted, unmade):
        neg += corrupt(tr, f, f.__name__)
    c.validate("JudgeTrace", tr, negatives=neg)
    c.coverage["rule"] = "searches judged out of bag and vetted, whole runs of growforest with the importance they report"
