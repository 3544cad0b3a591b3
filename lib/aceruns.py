"""Runs of growforest -ace, recorded as traces for WelchTrace: the command is built with the tag verif,
which has it tell the importances and the contrasts of every forest (see /repo/growforest/verif_on.go)."""
import json, os, random, re
from runs import *
from growruns import told


def make(r, d):
    n = r.randrange(14, 40)
    cls = [j % 2 for j in range(n)]
    r.shuffle(cls)
    kind = r.choice(["cat", "num"])
    t = Col("C:t", "cat", [["no", "yes"][c] for c in cls]) if kind == "cat" else \
        Col("N:t", "num", [repr(c * 3 + round(r.random(), 3)) for c in cls])
    for j in range(n):
        if r.random() < 0.05 and j > 3:
            t.text[j] = "NA"
    cols = [t]
    for j in range(r.randrange(1, 6)):
        x = r.random()
        name = "%s:x%d" % ("N", j)
        if x < 0.35:
            c = told(r, name, "num", cls)
        elif x < 0.5:
            c = told(r, "C:x%d" % j, "cat", cls)
        elif x < 0.65:
            c = cat_col(r, "C:x%d" % j, n, r.choice([2, 3, 6]), r.choice([0, 0.2]))
        elif x < 0.72:
            c = Col(name, "num", ["7"] * n)
        else:
            c = num_col(r, name, n, r.choice([0, 0.2]))
        # some features tell a little
        for k in range(n):
            if r.random() < 0.25 and c.kind == "num" and x < 0.35:
                c.text[k] = repr(round(r.uniform(0, 14), 3))
        cols.append(c)
    r.shuffle(cols)
    tab = Table(cols)
    trees = r.choice([1, 3, 8, 20])
    forests = r.choice([2, 2, 3, 5, 9])
    cutoff = r.choice(["0", "0", "0.5", "0.3", "0.1", "0.05", "0.01"])
    mtry = r.choice(["1", "1", "2", ".5"])
    a = ["-ace", str(forests), "-nCores", r.choice(["1", "1", "2", "4"]), "-mTry", mtry, "-rfpred", os.path.join(d, "f.sf"), "-leafSize", "1"]
    if cutoff != "0":
        a += ["-cutoff", cutoff]
        if mtry == "1" and r.random() < 0.5:
            trees = 150
    a += ["-nTrees", str(trees)]
    reported = cutoff == "0" or r.random() < 0.75
    if reported:
        a += ["-importance", os.path.join(d, "ace.tsv")]
    a += r.choice([[], [], [], ["-splitmissing"], ["-nobag"], ["-entropy"] if kind == "cat" else ["-l1"], ["-maxDepth", "2"]])
    feats = [c.name for c in cols if c is not t]
    out = set()
    if r.random() < 0.3 and len(feats) > 1:
        out = set(r.sample(feats, r.randrange(1, len(feats))))
        with open(os.path.join(d, "black.tsv"), "w") as f:
            f.write("".join(x + "\n" for x in out))
        a += ["-blacklist", os.path.join(d, "black.tsv")]
    if r.random() < 0.15:
        a += ["-nContrasts", "1"]     # features like any other: with contrasts of their own
    return dict(tab=tab, t=t, args=a, forests=forests, cutoff=cutoff, trees=trees, reported=reported, out=out, must=trees == 150)


def ace_run(c, exe, i):
    r = random.Random(c.seed * 100151 + i)
    d = os.path.join(c.work, "ace%d" % i)
    os.makedirs(d)
    g = make(r, d)
    g["tab"].afm(os.path.join(d, "train.fm"))
    cmd = [exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
    rc, text, to = c.run(cmd, timeout=120, cwd=d, env=dict(VERIF_ACE=os.path.join(d, "ace.json")))
    t = dict(id="ace-%d" % i, args=" ".join(os.path.basename(x) for x in cmd[1:]), table=g["tab"].json(), ev=[])
    ev = t["ev"]
    if rc != 0 or to:
        ev.append(dict(op="failed", hung=to, text=text[-400:]))
        return t
    recs = [json.loads(l) for l in (read(os.path.join(d, "ace.json")) or "").splitlines()]
    sf = parse_sf(read(os.path.join(d, "f.sf")) or "")
    used = sorted(set(x["feat"] for e in sf if e["op"] == "tree" for x in e["nodes"] if x["kind"] != "leaf"))
    if not recs or any(len(x["Fakes"]) * 2 != len(x["Imps"]) or x["Names"] != recs[0]["Names"] for x in recs):
        ev.append(dict(op="failed", hung=False, text="no importances"))
        return t
    k = len(recs[0]["Fakes"])
    names = recs[0]["Names"][:k]
    for j in range(min(k, len(g["tab"].cols))):
        col = g["tab"].cols[j]
        cells = ["NA" if col.missing(i) else col.val(i) for i in range(g["tab"].n)]
        fakes = [[num(x) if col.kind == "num" and x != "NA" else x for x in rec["Fakes"][j]] for rec in recs]
        ok = col.name not in g["out"] and col is not g["t"]
        ev.append(dict(op="contrast", cells=cells, fakes=fakes, distinct=len(set(cells)) if ok else 0))
    m = re.findall(r"Growing non-ACE forest with (-?\d+) features with p-value < ", text)
    rs = rows(read(os.path.join(d, "ace.tsv")) or "") if g["reported"] else []
    if any(len(x) != 4 for x in rs):
        ev.append(dict(op="failed", hung=False, text="garbled report"))
        return t
    if g["cutoff"] != "0" and len(m) != 1:
        ev.append(dict(op="failed", hung=False, text="number of features"))
        return t
    ev.append(dict(op="ace", target=g["t"].name, names=names, eligible=[x not in g["out"] and x != g["t"].name for x in names], forests=g["forests"],
                   real=[[rec["Imps"][j] for rec in recs] for j in range(k)], fake=[[rec["Imps"][j + k] for rec in recs] for j in range(k)],
                   reported=g["reported"], rows=[dict(target=x[0], name=x[1], p=num(x[2]) or "nan", m=num(x[3]) or "nan") for x in rs],
                   cutoff=rat(float(g["cutoff"])), kept=int(m[0]) if m else 0, used=used, must=g["must"]))
    return t
