"""Runs of growforest that save a forest and export it for scikit-learn (FlatTrace)."""
import json, os, random
from runs import *
from vlib import rat


def make(r, d):
    n = r.choice([6, 12, 30, 60])
    miss = r.choice([0, 0, 0.2])
    cols = [num_col(r, "N:x%d" % j, n, miss) for j in range(r.randrange(1, 6))]
    cols += [cat_col(r, "C:k%d" % j, n, r.choice([2, 3, 5]), miss) for j in range(r.choice([0, 0, 1, 2]))]
    a = []
    if r.random() < 0.5:
        t = Col("C:t", "cat", [r.choice(["p", "q", "s"]) for _ in range(n)])
        t.text[:3] = ["p", "q", "s"]
        a += r.choice([[], [], ["-entropy"], ["-adaboost"]])
    else:
        t = num_col(r, "N:t", n, 0, r.randrange(3))
        a += r.choice([[], [], ["-l1"], ["-gbt", "0.1"], ["-density"]])
    cols.append(t)
    r.shuffle(cols)
    trees = r.choice([1, 2, 5, 12])
    cores = r.choice([1, 1, 2, 4]) if "-gbt" not in a and "-adaboost" not in a else 1
    a += ["-nTrees", str(trees), "-nCores", str(cores), "-leafSize", r.choice(["1", "1", "2", "4"])]
    plain = "-density" not in a and "-gbt" not in a and "-adaboost" not in a
    if r.random() < 0.4:
        a += ["-splitmissing"]
    if r.random() < 0.3:
        a += ["-maxDepth", r.choice(["1", "2", "4"])]
    if r.random() < 0.25 and plain:
        a += ["-jungle"]
    if r.random() < 0.3:
        a += ["-nobag"]
    if r.random() < 0.2 and "-density" not in a:
        a += ["-selftest"]
    if r.random() < 0.2 and len(cols) > 2:
        with open(os.path.join(d, "black.tsv"), "w") as f:
            f.write(r.choice([c for c in cols if c is not t]).name + "\n")
        a += ["-blacklist", os.path.join(d, "black.tsv")]
    if r.random() < 0.25 and plain:
        a += ["-ace", r.choice(["1", "2", "3"])] + r.choice([[], ["-cutoff", "0.9"]])
    elif r.random() < 0.2:
        a += ["-importance", os.path.join(d, "imp.tsv")]
    if r.random() < 0.2:
        a += ["-mTry", str(len(cols) - 1)]
    return Table(cols), t.name, a, trees


KEYS = ("left_child", "right_child", "feature", "threshold")


def flat_nodes(ns):
    return [dict(l=x["left_child"], r=x["right_child"], f=x["feature"], t=rat(float(x["threshold"]))) for x in ns]


def sk_run(c, exe, i):
    r = random.Random("%s-sk-%d" % (c.seed, i))
    d = os.path.join(c.work, "sk%d" % i)
    os.makedirs(d)
    tab, target, a, trees = make(r, d)
    data, sf, sk = (os.path.join(d, x) for x in ("a.fm", "f.sf", "f.json"))
    tab.afm(data)
    argv = [exe, "-train", data, "-target", target, "-rfpred", sf, "-scikitforest", sk] + a
    rc, text, late = c.run(argv, timeout=120, cwd=d)
    t = dict(id="sk%d" % i, args=" ".join(x.replace(d + "/", "") for x in argv[1:]), cols={}, ev=[])
    ev = t["ev"]
    if late or rc:
        ev.append(dict(op="failed", rc=rc, text=text[-300:]))
        return t
    saved = []
    for e in parse_sf(read(sf) or ""):
        if e["op"] == "tree":
            saved.append(e["nodes"])
        elif e["op"] == "garbled":
            ev.append(e)
    try:
        out = json.loads(read(sk) or "")
        flat = [dict(flat=flat_nodes(x["nodes"]), count=x["node_count"], capacity=x["capacity"], depth=x["max_depth"]) for x in out]
    except (ValueError, KeyError, TypeError):
        ev.append(dict(op="garbled", line=(read(sk) or "")[:200]))
        return t
    # with artificial contrasts a split may be on the contrast of a feature: its column is not told by the data
    names = tab.names()
    cols = {x: j for j, x in enumerate(names)}
    for j, x in enumerate(names):
        cols[x + ":SHUFFLED"] = len(names) + j
    ev += [dict(op="pair", i=j, nodes=[{k: n[k] for k in ("kind", "feat", "value", "l", "r", "m")} for n in s], **f)
           for j, (s, f) in enumerate(zip(saved, flat))]
    ev.append(dict(op="ended", want=trees, saved=len(saved), exported=len(flat)))
    t["cols"] = cols
    return t
