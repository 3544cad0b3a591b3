"""Runs of growforest that grow one tree judged out of bag or vetted, as traces for JudgeTrace."""
import os
from fractions import Fraction
from runs import *
from vlib import rat

CAT = ["gini", "gini", "entropy", "regret", "dentropy", "wrf", "hdist"]
NUM = ["num", "num", "l1", "gradboost"]


def make(r, i, d, few):
    kind = r.choice(["cat", "num"])
    typ = ("gini" if kind == "cat" else "num") if few else r.choice(CAT if kind == "cat" else NUM)
    n = r.randrange(4, 6) if few else r.randrange(8, 40)
    evaloob = r.random() < (0.5 if few else 0.7)
    if few and evaloob:
        n += r.randrange(2, 6)
    a = ["-nTrees", "1", "-nCores", "1"]
    splitmissing = r.random() < 0.4
    cols = []
    for j in range(1 if few else r.randrange(1, 5)):
        miss = 0.2 if splitmissing and not evaloob and not few else 0   # so that only cases in the bag are without a prediction
        if r.random() < 0.6:
            cols.append(num_col(r, "N:x%d" % j, n, miss, style=r.choice([1, 2]) if few else None))
        else:
            cols.append(cat_col(r, "C:k%d" % j, n, r.choice([2, 3]) if few else r.choice([2, 3, 5, 7]), miss))
    if kind == "cat":
        k = 2 if typ == "hdist" else r.choice([2, 2, 3])
        labs = ["c%d" % x for x in range(k)]
        t = Col("C:t", "cat", [labs[j % k] if j < k else r.choice(labs) for j in range(n)])
        r.shuffle(t.text)
    else:
        t = num_col(r, "N:t", n, 0, style=r.choice([1, 2]))
    if not few:
        for j in r.sample(range(n), r.choice([0, 0, n // 5])):
            t.text[j] = "NA"
    labs = sorted({t.text[j] for j in t.known()})
    if kind == "cat" and typ == "hdist" and len(labs) < 2:
        typ = "gini"
    # some of the features tell something
    for c in cols:
        for j in range(n):
            if not few and r.random() < 0.4 and not t.missing(j) and not c.missing(j):
                src = t.known()
                same = [q for q in src if t.text[q] == t.text[j] and not c.missing(q)]
                c.text[j] = c.text[same[0]]
    cost = {l: r.choice(["1", "2", "0.5", "3.25"]) for l in labs}
    js = "{%s}" % ",".join('"%s":%s' % x for x in cost.items())
    pos = r.choice(labs) if labs else ""
    a += {"gini": [], "entropy": ["-entropy"], "regret": ["-cost", js], "dentropy": ["-dentropy", js], "wrf": ["-rfweights", js],
          "hdist": ["-hellinger", "-positive", pos], "num": [], "l1": ["-l1"], "gradboost": ["-gbt", "0.5"]}[typ]
    if splitmissing:
        a += ["-splitmissing"]
    known = t.known()
    vet = few or r.random() < 0.3
    leaf = 1 if few else r.choice([1, 1, 2])
    a += ["-leafSize", str(leaf), "-mTry", str(len(cols))]
    if few:
        a += ["-maxDepth", "1"]
    elif r.random() < 0.3:
        a += ["-maxDepth", str(r.randrange(1, 4))]
    whole = not evaloob
    if evaloob:
        a += ["-evaloob", "-oobpreds", os.path.join(d, "oob.tsv")]
        if few:
            a += ["-nobag", "-nSamples", str(n - r.randrange(2, 5))]
        elif r.random() < 0.5:
            a += ["-nobag", "-nSamples", str(r.randrange(2, len(known)))]
    else:
        a += ["-nobag"]
    if vet:
        a += ["-vet"]
    if r.random() < 0.2 and not few:
        a += r.choice([["-extra"], ["-force"]])
    r.shuffle(cols)
    cols.insert(r.randrange(len(cols) + 1), t)
    tab = Table(cols, ["s%d" % (j + 1) for j in range(n)])
    tab.afm(os.path.join(d, "train.fm"))
    a += ["-rfpred", os.path.join(d, "f.sf"), "-importance", os.path.join(d, "imp.tsv")]
    return dict(tab=tab, t=t, typ=typ, args=a, evaloob=evaloob, vet=vet, few=few, leaf=leaf, cost=cost, pos=pos, dir=d, cols=[c for c in cols if c is not t])


def target(g):
    t, typ = g["t"], g["typ"]
    j = t.json()
    labs = []
    for k in range(g["tab"].n):
        if not t.missing(k) and t.kind == "cat" and t.text[k] not in labs:
            labs.append(t.text[k])
    val = j["val"]
    if typ == "gradboost":
        xs = [Fraction(val[k]) for k in t.known()]
        m = sum(xs) / len(xs)
        val = [str(Fraction(v) - m) for v in val]
    par = {}
    if typ in ("regret", "dentropy"):
        par["cost"] = {l: num(g["cost"][l]) for l in labs}
    if typ == "wrf":
        par["w"] = {l: num(g["cost"][l]) for l in labs}
    if typ == "hdist":
        par["pos"] = g["pos"]
    return dict(type=typ, val=val, miss=j["miss"], cats=labs, par=par)


def trace(g, i, res):
    rc, text, to = res
    d, t = g["dir"], g["t"]
    tr = dict(id="%s-%s%d" % (g["typ"], "few-" if g["few"] else "", i), target=target(g), cols=[c.json() for c in g["cols"]],
              args=" ".join(os.path.basename(x) for x in g["args"]), ev=[])
    if rc != 0 or to:
        tr["ev"].append(dict(op="failed", text=text[-600:]))
        return tr
    trees = [e for e in parse_sf(read(os.path.join(d, "f.sf")) or "") if e["op"] in ("tree", "garbled")]
    rs = rows(read(os.path.join(d, "imp.tsv")) or "")
    if len(trees) != 1 or trees[0]["op"] != "tree" or any(len(x) != 7 for x in rs):
        tr["ev"].append(dict(op="garbled"))
        return tr
    known = t.known()
    oob, bag = [], [k + 1 for k in known]
    if g["evaloob"]:
        out = rows(read(os.path.join(d, "oob.tsv")) or "")
        if len(out) != g["tab"].n:
            tr["ev"].append(dict(op="garbled"))
            return tr
        oob = [k + 1 for k in known if out[k][1] not in ("NA", "NaN")]
        bag = []
    tr["ev"].append(dict(op="judged", evaloob=g["evaloob"], vet=g["vet"], few=g["few"], oob=oob, bag=bag, leaf=g["leaf"], nodes=trees[0]["nodes"],
                         rows=[dict(name=x[0], mean=num(x[1]) or "nan") for x in rs if x[0] != t.name]))
    return tr


def several(r, i, d):
    """a few trees of one split each, by samples without replacement of a handful of cases"""
    n = r.randrange(5, 8)
    t = num_col(r, "N:t", n, 0, style=2)
    x = num_col(r, "N:x", n, 0, style=1) if r.random() < 0.7 else cat_col(r, "C:x", n, 3)
    spare = r.choice([0, 0, 1])
    for k in range(spare):
        t.text[r.randrange(n)] = "NA"
    known = t.known()
    m = len(known) - r.randrange(2, 4)
    m = max(m, 2)
    Table([t, x] if r.random() < 0.5 else [x, t]).afm(os.path.join(d, "train.fm"))
    a = ["-nTrees", str(r.choice([2, 3, 3, 4])), "-nCores", r.choice(["1", "1", "2"]), "-leafSize", "1", "-mTry", "1", "-maxDepth", "1", "-nobag",
         "-nSamples", str(m), "-evaloob", "-rfpred", os.path.join(d, "f.sf"), "-importance", os.path.join(d, "imp.tsv")]
    return dict(t=t, x=x, args=a, dir=d, m=m)


def several_trace(g, i, res):
    rc, text, to = res
    t = g["t"]
    j = t.json()
    tr = dict(id="several-%d" % i, args=" ".join(os.path.basename(x) for x in g["args"]), cols=[g["x"].json()],
              target=dict(type="num", val=j["val"], miss=j["miss"], cats=[], par={}), ev=[])
    trees = [e for e in parse_sf(read(os.path.join(g["dir"], "f.sf")) or "") if e["op"] in ("tree", "garbled")]
    rs = rows(read(os.path.join(g["dir"], "imp.tsv")) or "")
    if rc != 0 or to or any(e["op"] != "tree" for e in trees) or not rs or any(len(x) != 7 for x in rs):
        tr["ev"].append(dict(op="failed", text=text[-600:]))
    else:
        tr["ev"].append(dict(op="several", trees=[e["nodes"] for e in trees], m=g["m"], known=[k + 1 for k in t.known()],
                             mean=[num(x[1]) or "nan" for x in rs if x[0] == g["x"].name][0]))
    return tr


def made(r, i, d):
    """one feature tells all and the others nothing"""
    n = 2 * r.randrange(20, 40)
    cls = [k % 2 for k in range(n)]
    r.shuffle(cls)
    typ = r.choice(["gini", "entropy", "hdist", "num", "l1", "gradboost", "ada", "numada"])
    num_t = typ in ("num", "l1", "gradboost", "numada")
    t = Col("N:t", "num", [["1", "3"][c] for c in cls]) if num_t else Col("C:t", "cat", [["no", "yes"][c] for c in cls])
    f = Col("N:f", "num", ["%d" % (10 * c) for c in cls]) if r.random() < 0.5 else Col("C:f", "cat", [["a", "b"][c] for c in cls])
    cols = [t, f, Col("N:flat", "num", ["1"] * n), Col("C:flat", "cat", ["u"] * n)]
    r.shuffle(cols)
    tab = Table(cols)
    tab.afm(os.path.join(d, "train.fm"))
    a = ["-nTrees", "1", "-mTry", "3", "-leafSize", "1", "-rfpred", os.path.join(d, "f.sf")]
    a += {"entropy": ["-entropy"], "hdist": ["-hellinger", "-positive", "yes"], "l1": ["-l1"], "gradboost": ["-gbt", "0.5"],
          "ada": ["-adaboost"], "numada": ["-adaboost"]}.get(typ, [])
    # the shuffled target is judged by the plain measure of its kind: only there are the two comparable
    a += r.choice([["-evaloob"], ["-evaloob", "-vet"], ["-vet"]] if typ in ("gini", "num") else [["-evaloob"]])
    if r.random() < 0.5:
        a += ["-nobag", "-nSamples", str(n // 2)]
    return dict(typ=typ, args=a, dir=d, t=t)


def made_trace(g, i, res):
    rc, text, to = res
    tr = dict(id="made-%s%d" % (g["typ"], i), args=" ".join(os.path.basename(x) for x in g["args"]), ev=[])
    trees = [e for e in parse_sf(read(os.path.join(g["dir"], "f.sf")) or "") if e["op"] == "tree"]
    if rc != 0 or to or len(trees) != 1:
        tr["ev"].append(dict(op="failed", text=text[-600:]))
    else:
        n = trees[0]["nodes"]
        tr["ev"].append(dict(op="made", nodes=n, feats=["N:f", "C:f"]))
    return tr
