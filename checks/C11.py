import os, random
from vlib import corrupt
import growruns as G


def run(c):
    for cfg in ("ForestMC.cfg", "ForestMC_many.cfg", "ForestMC_one.cfg") + (("ForestMCBig.cfg",) if c.thorough else ()):
        c.model("ForestMC", cfg, min_states=30, actions=["Grow", "WriteBody", "KeepTree", "NextTree"], timeout=2000)
    c.model_fails("ForestMC", "ForestMC_noclamp.cfg", "Requested")
    c.model_fails("ForestMC", "ForestMC_nolock.cfg", "Requested")
    c.model_fails("ForestMC", "ForestMC_reuse.cfg", "KeptOk")
    exe, race = c.cmd("growforest"), c.cmd("growforest", race=True)

    def one(i):
        r = random.Random(c.seed * 100003 + i)
        focus = ["sched", "test", "sched", "", "same", "tiny"][i % 6]
        g = G.make_run(r, i, focus)
        d = os.path.join(c.work, "run%d" % i)
        os.makedirs(d)
        G.add_outputs(r, g, d, "" if focus in ("same", "tiny") else focus)
        g["tab"].afm(os.path.join(d, "train.fm"), r.random() < 0.3)
        cmd = ["-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
        env = {"GORACE": "halt_on_error=1"}
        if focus == "same":
            cmd += ["-noseed"]
            cmd[cmd.index("-nCores") + 1] = "1"
            g["cores"] = 1
            outs = []
            for _ in range(2):
                res = c.run([exe] + cmd, timeout=120, env={"GODEBUG": ""}, cwd=d)
                outs.append([G.strip(res[1]).splitlines()] + [(G.read(f) or "").splitlines() for f in sorted(g["files"].values())])
            g["again"] = outs
        else:
            res = c.run([race if i % 2 == 0 else exe] + cmd, timeout=120, env=env, cwd=d)
        tr = G.trace(g, i, ["test"], res)
        return tr
    n = 600 if c.thorough else 150
    tr = G.pool(one, range(n))

    def lost(t):
        k = max(i for i, e in enumerate(t["ev"]) if e["op"] == "tree")
        if t["want"] < 2:
            return False
        del t["ev"][k]

    def twice(t):
        k = max(i for i, e in enumerate(t["ev"]) if e["op"] == "tree")
        t["ev"].insert(k, t["ev"][k])

    def garbled(t):
        t["ev"].insert(2, dict(op="garbled", line="x"))

    def error(t):
        [e for e in t["ev"] if e["op"] == "testerror"][0]["e"] = "1234567"
        return t["kind"] == "cat"

    def classified(t):
        [e for e in t["ev"] if e["op"] == "classified"][0]["c"] += 1000

    def same(t):
        [e for e in t["ev"] if e["op"] == "same"][0]["second"] = []

    def hung(t):
        t["ev"][0]["hung"] = True
    neg = []
    for f in (lost, twice, garbled, error, classified, same, hung):
        neg += corrupt(tr, f, f.__name__)
    c.validate("RunTrace", tr, negatives=neg)
    c.coverage["rule"] = "%d runs of growforest (half built with the race detector): 1..8 cores, 1..24 trees, 19 kinds of target, random options" % n
