"""Runs of growforest without bagging: every tree is trained on all cases with a known target, so that
the trees it saves can be judged against the data and the options (PlainTrace)."""
import json, math, os, random, re
from runs import *
from vlib import rat

CAT = ["gini", "gini", "entropy", "regret", "dentropy", "wrf", "np", "hdist", "trans", "density"]
NUM = ["num", "num", "num", "l1", "ordinal", "density"]


def whole(r, name, n, miss):
    """a numeric column whose mean is a whole number"""
    text = [str(r.randrange(-20, 20)) for _ in range(n)]
    gone = [i for i in range(n) if r.random() < miss]
    have = [i for i in range(n) if i not in gone]
    if have:
        text[have[0]] = str(int(text[have[0]]) - sum(int(text[i]) for i in have) % len(have))
    for i in gone:
        text[i] = r.choice(MISSING)
    return Col(name, "num", text)


def impute(col):
    """the column without missing values; None if what to impute is open"""
    have = [i for i in range(len(col.text)) if not col.missing(i)]
    if len(have) == len(col.text):
        return col
    if not have:
        return None
    if col.kind == "num":
        v = str(sum(int(col.text[i]) for i in have) // len(have))
    else:
        n = {}
        for i in have:
            n[col.text[i]] = n.get(col.text[i], 0) + 1
        best = [k for k in n if n[k] == max(n.values())]
        if len(best) > 1:
            return None
        v = best[0]
    return Col(col.name, col.kind, [col.text[i] if i in have else v for i in range(len(col.text))])


NONE = None


def size(r, total, texts):
    """a size as the options give it, and what is asked for; shares whose product is rounded are left out"""
    while True:
        t = r.choice(texts)
        if t is None:
            return dict(how="none", num=0, den=1), None
        if "." not in t:
            return dict(how="count", num=int(t), den=1), t
        f = Fraction(t)
        if math.ceil(float(t) * total) == math.ceil(f * total):
            return dict(how="share", num=f.numerator, den=f.denominator), t


def resolve(o, total, default):
    x = o["num"] if o["how"] == "count" else math.ceil(Fraction(o["num"] * total, o["den"])) if o["how"] == "share" else 0
    return x if x > 0 else default


def make(r, d, modes=None):
    typ = r.choice(modes or r.choice([CAT, NUM]))
    kind = "cat" if typ in CAT and typ != "density" else r.choice(["cat", "num"]) if typ == "density" else "num"
    n = r.randrange(6, 20)
    miss = r.choice([0, 0, 0.15, 0.3])
    imp = r.random() < 0.2
    cols = []
    for j in range(r.randrange(1, 4)):
        cols.append(whole(r, "N:x%d" % j, n, miss) if imp else num_col(r, "N:x%d" % j, n, miss))
    for j in range(r.randrange(0, 3)):
        cols.append(cat_col(r, "C:k%d" % j, n, r.choice([1, 2, 3, 4]), miss))
    tmiss = r.choice([0, 0.15]) if typ != "density" else 0
    if kind == "cat":
        k = 2 if typ == "hdist" else r.choice([2, 2, 3, 4])
        labs = r.choice([["yes", "no", "maybe", "x"], ["True", "False", "2", "1"]])[:k]
        t = Col("C:t", "cat", [r.choice(labs) for _ in range(n)])
        for j in range(k):
            t.text[j] = labs[j]
    elif typ == "ordinal":
        t = Col("N:t", "num", [str(r.randrange(5)) for _ in range(n)])
    else:
        t = whole(r, "N:t", n, 0) if imp else num_col(r, "N:t", n, 0, r.randrange(3))
    for j in range(n):
        if j > 4 and r.random() < tmiss and not imp:
            t.text[j] = "NA"
    cols.append(t)
    r.shuffle(cols)
    tab = Table(cols)
    feats = [c for c in cols if c is not t]
    labs = sorted(set(t.text[i] for i in t.known()))
    known = t.known()
    seen = cols
    if imp:
        seen = [impute(c) for c in cols]
        if None in seen:
            seen, imp = cols, False
    if not imp:
        seen = cols
    # the target
    par, a = {}, ["-nobag"]
    cost = {l: r.choice([1, 2, 0.5, 3.25, 0.25]) for l in labs}
    js = "{%s}" % ",".join('"%s":%s' % x for x in cost.items())
    rats = {l: rat(float(x)) for l, x in cost.items()}
    allcols = [c.json() for c in seen]
    if typ == "entropy":
        a += ["-entropy"]
    elif typ == "regret":
        a += ["-cost", js]
        par["cost"] = rats
    elif typ == "dentropy":
        a += ["-dentropy", js]
        par["cost"] = rats
    elif typ == "wrf":
        a += ["-rfweights", js]
        par["w"] = rats
    elif typ == "np":
        al, ka = r.choice(["0.125", "0.25", "0.5"]), r.choice(["0.5", "2", "100"])
        a += ["-NP", "-NP_pos", labs[0], "-NP_a", al, "-NP_k", ka]
        par.update(pos=labs[0], alpha=rat(float(al)), kappa=rat(float(ka)))
    elif typ == "hdist":
        if labs[0] != "False":
            a += ["-hellinger", "-positive", labs[0]]
            par["pos"] = labs[0]
        else:
            a += ["-hellinger"]
            par["pos"] = "True"
    elif typ == "trans":
        al, be = r.choice(["0", "0.5", "2"]), r.choice(["0", "0.25", "1"])
        a += ["-trans_unlabeled", labs[-1], "-trans_alpha", al, "-trans_beta", be]
        par.update(alpha=rat(float(al)), beta=rat(float(be)), unlabeled=labs[-1], cols=[c.json() for c in seen if c.name != t.name])
    elif typ == "density":
        a += ["-density"]
        par.update(n=len(known), cols=allcols)
    elif typ in ("l1", "ordinal"):
        a += ["-" + typ]
    if imp:
        a += ["-impute"]
    # the limits
    out = set()
    if r.random() < 0.25 and len(feats) > 1:
        out = set(c.name for c in r.sample(feats, r.randrange(1, len(feats))))
        with open(os.path.join(d, "black.tsv"), "w") as f:
            f.write("".join(x + "\n" for x in out))
        a += ["-blacklist", os.path.join(d, "black.tsv")]
    cands = [c.name for c in feats if c.name not in out]
    k = len(cands)
    leafopt, lt = size(r, len(known), [NONE, NONE, "1", "1", "2", "3", "0", "-2", "0.2", ".5", ".15", "70000"])
    leaf = resolve(leafopt, len(known), 4 if kind == "num" else 1)
    if lt is not None:
        a += ["-leafSize", lt]
    tryopt, mt = size(r, k, [str(k), str(k), "1.0", str(k + 3), "1", ".5", "0", "70000", NONE])
    if mt is not None:
        a += ["-mTry", mt]
    depth = r.choice([0, 0, 0, 1, 2, 3])
    if depth:
        a += ["-maxDepth", str(depth)]
    missing = r.random() < 0.4
    a += ["-splitmissing"] if missing else []
    a += ["-force"] if r.random() < 0.2 else []
    extra = r.random() < 0.1
    a += ["-extra"] if extra else []
    trees = r.choice([1, 1, 2, 3, 5])
    a += ["-nTrees", str(trees), "-nCores", r.choice(["1", "1", "2", "4"]), "-rfpred", os.path.join(d, "f.sf")]
    imps = typ not in ("density",) and r.random() < 0.5
    if imps:
        a += ["-importance", os.path.join(d, "imp.tsv")]
    tj = [c for c in seen if c.name == t.name][0].json()
    if typ == "density":
        tj["val"], labs = ["0"] * n, []
    target = dict(type=typ, val=tj["val"], miss=tj["miss"] if typ != "density" else [False] * n, cats=labs if kind == "cat" else [], par=par)
    if typ in ("gini", "num"):
        target["par"] = {}
    return dict(tab=tab, t=t, typ=typ, args=a, target=target, cols=allcols, cases=[i + 1 for i in known] if not imp else list(range(1, n + 1)),
                cands=cands, leaf=leaf, leafopt=leafopt, tryopt=tryopt, eligible=k, known=len(known), depth=depth, missing=missing, all=not extra, trees=trees, imps=imps,
                isnum=kind == "num")


def nodes(ns):
    for i, x in enumerate(ns):
        x["id"] = i + 1
        x["num"] = num(x["pred"]) or "nan"
    return ns


def said(text, what, sep=" "):
    m = re.findall(r"^%s%s: (-?\d+)$" % (what, sep), text, re.M)
    return int(m[0]) if len(m) == 1 else -99


def grow_events(g, sf):
    ev = []
    for e in parse_sf(sf):
        if e["op"] == "garbled":
            ev.append(dict(op="garbled", line=e["line"]))
        elif e["op"] == "tree":
            ev.append(dict(op="grow", cases=g["cases"], cands=g["cands"], leaf=g["leaf"], depth=g["depth"], missing=g["missing"],
                           all=g["all"], plain=True, leafopt=g["leafopt"], tryopt=g["tryopt"], eligible=g["eligible"], numeric=g["isnum"], nodes=nodes(e["nodes"])))
    return ev


def aces(r, g, d, must=False):
    """artificial contrasts: the last forest's are told by the build with the tag verif"""
    g["ace"] = 0
    if g["typ"] in ("trans", "density") or g["imps"] or (r.random() > 0.25 and not must):
        return {}
    g["ace"] = r.choice([1, 2, 3])
    g["args"] += ["-ace", str(g["ace"])]
    return dict(VERIF_ACE=os.path.join(d, "ace.json"))


def ace_rows(g, d, names):
    """the columns and candidates of the last forest, and its importances"""
    recs = [json.loads(l) for l in (read(os.path.join(d, "ace.json")) or "").splitlines()]
    k = len(names)
    if len(recs) != g["ace"] or any(len(x["Fakes"]) != k or x["Names"][:k] != names or len(x["Imps"]) != 2 * k for x in recs):
        return None
    last = recs[-1]
    for j in range(k):
        name, old = last["Names"][k + j], g["cols"][j]
        miss = [x == "NA" for x in last["Fakes"][j]]
        g["cols"] = g["cols"] + [dict(name=name, kind=old["kind"], miss=miss,
                                      val=[("0" if miss[i] else num(x)) if old["kind"] == "num" else x for i, x in enumerate(last["Fakes"][j])])]
        if names[j] in g["cands"]:
            g["cands"] = g["cands"] + [name]
    if len(set(last["Names"])) != 2 * k:
        return None
    return [dict(f=last["Names"][j], count=-1, sum=total(last["Imps"][j], g["trees"])) for j in range(2 * k)]


def plain_run(c, exe, aceexe, i, modes=None, ace=False):
    r = random.Random(c.seed * 100193 + i)
    d = os.path.join(c.work, "plain%d" % i)
    os.makedirs(d)
    g = make(r, d, modes)
    env = aces(r, g, d, ace)
    g["tab"].afm(os.path.join(d, "train.fm"))
    cmd = [aceexe if env else exe, "-train", os.path.join(d, "train.fm"), "-target", g["t"].name] + g["args"]
    rc, text, to = c.run(cmd, timeout=60, cwd=d, env=env)
    tr = dict(id="plain-%s-%d" % (g["typ"], i), args=" ".join(os.path.basename(x) for x in cmd[1:]), table=g["tab"].json(), target=g["target"], cols=g["cols"], ev=[])
    if rc != 0 or to:
        tr["ev"].append(dict(op="failed", hung=to, text=text[-400:]))
        return tr
    rs = None
    if env:
        rs = ace_rows(g, d, g["tab"].names())
        if rs is None:
            tr["ev"].append(dict(op="garbled", line="contrasts"))
            return tr
        tr["cols"] = g["cols"]
    elif g["imps"]:
        rs = rows(read(os.path.join(d, "imp.tsv")) or "")
        if any(len(x) != 7 for x in rs):
            tr["ev"].append(dict(op="garbled", line="importance"))
            return tr
        rs = [dict(f=x[0], count=int(x[2]), sum=total(x[1], int(x[2]))) for x in rs]
    ev = grow_events(g, read(os.path.join(d, "f.sf")) or "")
    said1 = dict(op="said", trees=len(ev), want=g["trees"], leaf=said(text, "leafSize"), mtry=said(text, "mTry"),
                 leafopt=g["leafopt"], tryopt=g["tryopt"], eligible=g["eligible"], known=g["known"], numeric=g["isnum"])
    tr["ev"] = ev + [said1] + ([dict(op="total", rows=rs)] if rs is not None else [])
    return tr


def total(mean, count):
    m = mean if "/" in mean else num(mean)
    return "nan" if m is None or m in ("nan", "inf", "-inf") else str(Fraction(m) * count)


def size_run(c, exe, i):
    """what a run says of the sizes it uses"""
    r = random.Random(c.seed * 100207 + i)
    d = os.path.join(c.work, "size%d" % i)
    os.makedirs(d)
    n = r.randrange(5, 30)
    kind = r.choice(["cat", "num"])
    if kind == "cat":
        t = Col("C:t", "cat", [r.choice(["True", "False"]) for _ in range(n)])
        t.text[:2] = ["True", "False"]
    else:
        t = num_col(r, "N:t", n, 0, r.randrange(3))
    for j in range(2, n):
        if r.random() < 0.3:
            t.text[j] = r.choice(MISSING)
    cols = [num_col(r, "N:x%d" % j, n, r.choice([0, 0.2])) for j in range(r.randrange(1, 5))] + [cat_col(r, "C:k%d" % j, n, 3, 0) for j in range(r.randrange(0, 4))]
    feats = list(cols)
    cols.append(t)
    r.shuffle(cols)
    Table(cols).afm(os.path.join(d, "train.fm"))
    a, out = [], set()
    if r.random() < 0.3:
        out = set(x.name for x in r.sample(feats, r.randrange(1, len(feats) + 1)) if x is not feats[0])
        with open(os.path.join(d, "black.tsv"), "w") as f:
            f.write("".join(x + "\n" for x in out))
        a += ["-blacklist", os.path.join(d, "black.tsv")]
    k, known = len(feats) - len(out), len(t.known())
    leafopt, lt = size(r, known, [NONE, NONE, "1", "3", "0", "-2", "0.2", ".5", "1.0"])
    samopt, st = size(r, known, [NONE, NONE, "1", "7", "0", "-4", "0.25", ".5", "1.0", "50"])
    tryopt, mt = size(r, k, [NONE, "1", "2", "9", "0", "-1", ".5", "0.2", "1.0"])
    for x, y in (("-leafSize", lt), ("-nSamples", st), ("-mTry", mt)):
        if y is not None:
            a += [x, y]
    boost = r.random() < 0.5
    cut = not boost and r.random() < 0.4
    if boost:
        a += r.choice([["-adaboost"], ["-gbt", "0.1"]])
    if cut:
        a += ["-ace", "2", "-cutoff", r.choice(["0.9", "0.5", "0.2"])]
    if r.random() < 0.3:
        a += ["-nobag"]
    cmd = [exe, "-train", os.path.join(d, "train.fm"), "-target", t.name, "-nTrees", r.choice(["1", "3", "20"] if cut else ["1", "2"])] + a
    rc, text, to = c.run(cmd, timeout=60, cwd=d)
    tr = dict(id="size-%d" % i, args=" ".join(os.path.basename(x) for x in cmd[1:]), cols=[], ev=[],
              target=dict(type="gini", val=[], miss=[], cats=[], par={}))
    if rc != 0 or to:
        tr["ev"].append(dict(op="failed", hung=to, text=text[-400:]))
        return tr
    m = re.findall(r"^Growing non-ACE forest with (\d+) features[^\n]*\nmTry: (-?\d+)$", text, re.M)
    tr["ev"].append(dict(op="sizes", leafopt=leafopt, samopt=samopt, tryopt=tryopt, boost=boost, numeric=kind == "num", known=known, eligible=k,
                         said=dict(known=said(text, "non-missing cases", ""), leaf=said(text, "leafSize"), samples=said(text, "nSamples"),
                                   mtry=said(text, "mTry"), features=said(text, "Non Target Features")),
                         kept=[dict(features=int(x), mtry=int(y)) for x, y in m], cut=cut))
    return tr
