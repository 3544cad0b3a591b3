"""Boosted runs of growforest, and the saved forest applied to its training data, as traces for BoostTrace."""
import os, random
from fractions import Fraction
from vlib import corrupt, rat
from growruns import *


def make_boost(r, i, d):
    kind = r.choice(["cat", "num"])
    mode = r.choice(["ada", "adacost", "gradclass"] if kind == "cat" else ["numada", "grad", "grad"])
    tab, t = make_table(r, kind, False, n=r.randrange(8, 26))
    if kind == "num" and r.random() < 0.2:
        t.text = [x if t.missing(j) else repr(float(x) * 1000) for j, x in enumerate(t.text)]
    labs = sorted(set(t.text[j] for j in t.known()))
    trees = r.choice([1, 2, 3, 5, 8])
    a = ["-nTrees", str(trees)]
    lr = r.choice(["0.1", "0.5", "1", "0.3"])
    cost = {l: r.choice(["1", "2", "0.5", "1"]) for l in labs}
    a += {"ada": ["-adaboost"], "numada": ["-adaboost"], "adacost": ["-adacost", "{%s}" % ",".join('"%s":%s' % x for x in cost.items())],
          "grad": ["-gbt", lr], "gradclass": ["-gbt", lr, "-positive", labs[0]]}[mode]
    if kind == "num" and r.random() < 0.25:
        a += ["-l1"]
    for f, p in (("-splitmissing", .4), ("-force", .15), ("-extra", .1), ("-noseed", .1)):
        if r.random() < p:
            a += [f]
    if r.random() < 0.6:
        a += ["-leafSize", r.choice(["1", "2", "4"])]
    if r.random() < 0.4:
        a += ["-maxDepth", str(r.randrange(1, 4))]
    if r.random() < 0.5:
        a += ["-mTry", r.choice(["1", "2", ".5"])]
    bag = "none"
    x = r.random()
    if x < 0.5:
        a += ["-nobag"]
        bag = "all"
    elif x < 0.6 and kind == "cat":
        a += ["-balance"]
    if x >= 0.4 and r.random() < 0.4:
        a += ["-nSamples", str(r.randrange(2, len(t.known()) + 4 if bag == "none" else len(t.known()) + 1))]
        bag = "none"
    a += ["-nCores", r.choice(["1", "1", "4"])]
    a += r.choice([[], ["-selftest"], ["-oob"], ["-progress"]])
    if r.random() < 0.15:
        a += ["-importance", os.path.join(d, "imp.tsv")]
    vals = [abs(float(t.text[j])) for j in t.known()] if kind == "num" else [0]
    return dict(tab=tab, t=t, mode=mode, trees=trees, args=a, lr=lr, cost=cost, pos=labs[0] if kind == "cat" else "", bag=bag,
                grad=mode in ("grad", "gradclass"), slack="1/10000000000" if mode == "numada" else rat(1e-9 * max([1.0] + vals)),
                file=os.path.join(d, "f.sf"))


def boost_trace(g, i, res, applied):
    rc, text, to = res
    t, mode, n = g["t"], g["mode"], g["tab"].n
    ev = [dict(op="exit", ok=rc == 0, hung=to)]
    zeros = ["0"] * n
    fev = parse_sf(read(g["file"]) or "")
    if mode not in ("ada", "adacost"):
        for e in fev:
            if e["op"] == "tree":
                to_num(e["nodes"])
    if g["grad"] and not any(e["op"] == "header" for e in fev):
        ev.append(dict(op="garbled", line="no intercept saved"))
    known = len(t.known())
    first = ["0" if t.missing(j) and mode != "numada" else "1/%d" % (n if mode == "numada" else known) for j in range(n)]
    ev.append(dict(op="begin", state=zeros if g["grad"] else first))
    ev += fev + [dict(op="end")]
    for out, expit in applied:
        rc, text2, to, rs = out
        ev.append(dict(op="exit", ok=rc == 0, hung=to))
        if any(len(x) != 3 for x in rs):
            ev.append(dict(op="garbled", line="applyforest"))
        else:
            ev.append(dict(op="applied", expit=expit, rows=[[x[0], num(x[1]) or "nan"] for x in rs]))
    j = t.json()
    data = dict(type=mode, n=n, val=j["val"], miss=j["miss"], lr=num(g["lr"]), pos=g["pos"],
                cost=[num(g["cost"][t.text[k]]) if mode == "adacost" and not t.missing(k) else "1" for k in range(n)])
    return dict(id="%s-%d" % (mode, i), data=data, slack=g["slack"], cols=g["tab"].json(), labels=g["tab"].labels, bag=g["bag"],
                want=g["trees"], args=" ".join(os.path.basename(x) for x in g["args"]), output=text[-1500:] if rc else "", ev=ev)


def boost_run(c, grow, apply, i):
    r = random.Random(c.seed * 7000003 + i)
    d = os.path.join(c.work, "run%d" % i)
    os.makedirs(d)
    g = make_boost(r, i, d)
    fm = g["tab"].afm(os.path.join(d, "train.fm"))
    res = c.run([grow, "-train", fm, "-target", g["t"].name, "-rfpred", g["file"]] + g["args"], timeout=120, cwd=d)
    applied = []
    if g["grad"] and res[0] == 0:
        # a forest with an intercept is recognised as additive
        plain = any(e["op"] == "header" and e["num"] != "0" for e in parse_sf(read(g["file"]) or ""))
        for flags in ([], ["-expit"], ["-sum"], ["-sum", "-expit"]):
            if r.random() < 0.5 or (not plain and "-sum" not in flags):
                continue
            out = os.path.join(d, "p%d.tsv" % len(applied))
            q = c.run([apply, "-fm", fm, "-rfpred", g["file"], "-preds", out] + flags, timeout=60, cwd=d)
            applied.append((q + (rows(read(out) or ""),), "-expit" in flags))
    return boost_trace(g, i, res, applied)


def check(c, types, tag):
    """rounds handed to the targets, forests grown with them, and boosted runs of the commands"""
    tr = [t for t in c.drive("boosts") if t["data"]["type"] in types]
    grow, app = c.cmd("growforest"), c.cmd("applyforest")
    n = 1500 if c.thorough else 260
    runs = [t for t in pool(lambda i: boost_run(c, grow, app, i), range(n)) if t["data"]["type"] in types]
    for t in runs:
        t["id"] = "run-" + t["id"]
    tr += runs

    def weight(t):
        e = [e for e in t["ev"] if e["op"] in ("round", "tree") and e["weight"] != "0"][-1]
        if tag == "C19" and not 0.01 < Fraction(e["weight"]) < 5:
            return False
        e["weight"] = rat(float(Fraction(e["weight"]) + 1) if t["data"]["type"] != "ada" else float(Fraction(e["weight"]) * 2))

    def state(t):
        e = [e for e in t["ev"] if e["op"] == "round"][-1]
        i = [j for j in range(t["data"]["n"]) if not t["data"]["miss"][j]][0]
        e["state"][i] = rat(float(Fraction(e["state"][i])) + 1.0)

    def skipped(t):
        """a round that was not boosted"""
        e = [e for e in t["ev"] if e["op"] == "round"][0]
        if e["weight"] == "0" or not e["leaves"] or (tag == "C18" and all(p == "0" for p in e["preds"])):
            return False
        if not any(not t["data"]["miss"][c - 1] for l in e["leaves"] for c in l):
            return False
        old, new = t["ev"][0]["state"], e["state"]
        if max(abs(Fraction(a) - Fraction(b)) for a, b in zip(old, new)) < max(Fraction(1, 1000), Fraction(t["slack"]) * 10**6):
            return False
        e["state"] = old

    def intercept(t):
        e = [e for e in t["ev"] if e["op"] == "header"][0]
        e["num"] = rat(float(Fraction(e["num"])) + 1.0)

    def leaf(t):
        if t["bag"] != "all" or t["data"]["type"] != "grad":
            return False
        e = [e for e in t["ev"] if e["op"] == "tree"][-1]
        x = [x for x in e["nodes"] if x["kind"] == "leaf"]
        x = x[-1]
        x["pred"] = rat(float(Fraction(x["pred"])) + 0.25 + 1e6 * float(Fraction(t["slack"])))
        return len(t["ev"]) > 0 and not any(t["data"]["miss"]) and not any(v for col in t["cols"] for v in col["miss"])

    def applied(t):
        e = [e for e in t["ev"] if e["op"] == "applied"][0]
        e["rows"][0][1] = rat(float(Fraction(e["rows"][0][1])) + 0.5)
    neg = corrupt(tr, weight, "weight", 5) + corrupt(tr, state, "state", 5) + corrupt(tr, skipped, "skipped", 5)
    if tag == "C18":
        neg += corrupt(tr, intercept, "intercept") + corrupt(tr, leaf, "leaf") + corrupt(tr, applied, "applied")
    c.validate("BoostTrace", tr, negatives=neg)
    c.coverage["rule"] = "rounds of arbitrary trees (perfect, useless, partial), forests grown by the library and by growforest, applied by applyforest"
