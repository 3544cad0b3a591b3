"""How often trees of growforest are grown from one sample or split on one feature, recorded for ChanceTrace."""
import collections, os, random
from fractions import Fraction
from runs import *

BASE = 16


def forest(c, exe, d, cols, target, args, trees, r):
    Table(cols).afm(os.path.join(d, "t.fm"))
    rc, out, late = c.run([exe, "-train", "t.fm", "-rfpred", "o.sf", "-target", target, "-nTrees", str(trees)] + args, cwd=d, timeout=240)
    if rc or late:
        return None, "growforest failed: " + out[-200:]
    ts = [e for e in parse_sf(read(os.path.join(d, "o.sf")) or "") if e["op"] in ("tree", "garbled")]
    if len(ts) != trees or any(e["op"] == "garbled" or not e["nodes"] for e in ts):
        return None, "the forest does not have the trees asked for"
    return [e["nodes"][0] for e in ts], ""


def decode(pred, n):
    """the cases of a leaf whose prediction is the mean of BASE^case"""
    v = round(Fraction(pred) * n)
    bag = []
    for i in range(1, 9):
        v = v // BASE
        m = v % BASE
        bag += [i] * int(m)
    return bag


def key(rows):
    return "".join("".join("%d " % x for x in row) + "|" for row in rows)


def chance_run(c, exe, i, trees):
    r = random.Random("%s-chance-%d" % (c.seed, i))
    d = os.path.join(c.work, "ch%d" % i)
    os.makedirs(d)
    kind = ["bag", "bag", "part", "feature", "feature", "balance", "balanceby", "bag"][i % 8]
    cores = 1 if i % 16 < 8 else r.choice([2, 3, 4, 8])
    args = ["-nCores", str(cores)]
    if r.random() < 0.5:
        args += ["-noseed"]
    ev = None
    if kind in ("bag", "part"):
        n = r.randrange(2, 5)
        miss = [r.random() < 0.3 for _ in range(n)]
        miss[r.randrange(n)] = False
        kn = miss.count(False)
        k = r.randrange(1, 3) if kind == "bag" else r.randrange(1, kn + 1)
        t = Col("N:t", "num", ["NA" if miss[j] else str(BASE ** (j + 1)) for j in range(n)])
        cols = [num_col(r, "N:x", n, 0), t]
        r.shuffle(cols)
        args += ["-leafSize", "50", "-nSamples", str(k)] + (["-nobag"] if kind == "part" else [])
        if kind == "bag" and r.random() < 0.3:
            args += ["-oob"]
        roots, why = forest(c, exe, d, cols, "N:t", args, trees, r)
        if roots is not None:
            bags = [decode(x["pred"], k) for x in roots]
            if kind == "part":
                ev = ev_of("samples of trees without bagging", dict(kind="part", miss=miss, n=k), 1, [[b] for b in bags])
            elif cores == 1 and i % 3:
                ev = ev_of("bootstrap samples of successive trees", dict(kind="knownbag", miss=miss, n=k), 2, [list(p) for p in zip(bags[::2], bags[1::2])])
            else:   # the samples of two trees make one of twice the size
                ev = ev_of("bootstrap samples of the trees", dict(kind="knownbag", miss=miss, n=2 * k), 1,
                           [[sorted(a + b)] for a, b in zip(bags[::2], bags[1::2])])
    elif kind == "feature":
        n, p = 8, r.randrange(2, 5)
        y = r.sample(range(40), n)
        t = Col("N:t", "num", [str(v) for v in y])
        flat = [r.random() < 0.25 for _ in range(p)]
        cols = [t]
        for f in range(p):
            cols.append(Col("N:x%d" % (f + 1), "num", ["5" if flat[f] else str(y[j] * (f + 2)) for j in range(n)]))
        roots, why = forest(c, exe, d, cols, "N:t", args + ["-nobag", "-mTry", "1", "-maxDepth", "1"], trees, r)
        if roots is not None:
            see = ["none" if flat[f] else "N:x%d" % (f + 1) for f in range(p)]
            if cores == 1 or any(flat):
                counts = collections.Counter(x["feat"] or "none" for x in roots)
                ev = dict(op="seen", what="candidate features of trees", s=dict(kind="search", len=p, n=1, k=0), see=see, n=trees, counts=dict(counts))
            else:
                f = [int(x["feat"][3:]) if x["feat"] else 0 for x in roots]
                ev = ev_of("candidate features of two trees", dict(kind="knownbag", miss=[False] * p, n=2), 1, [[sorted(q)] for q in zip(f[::2], f[1::2])])
    else:
        n = r.randrange(3, 8)
        cls = [r.choice(["a", "a", "b", "c"]) for _ in range(n)]
        cls[0], cls[1] = "a", "b"
        t = Col("C:t", "cat", list(cls))
        if r.random() < 0.4:
            t.text[r.randrange(n)] = "NA"
            if not set(t.text) - {"NA"}:
                t.text[0] = "a"
        cls = ["NA" if x == "NA" else x for x in t.text]
        st = [r.choice(["p", "q", "q"]) for _ in range(n)]
        s = Col("C:s", "cat", list(st))
        cols = [num_col(r, "N:x", n, 0), t, s]
        args += ["-balance", "-nSamples", "1", "-leafSize", "50"]
        if kind == "balanceby":
            args += ["-balanceby", "C:s"]
            sch = dict(kind="secondary", cls=cls, str=st, n=1)
        else:
            sch = dict(kind="balanced", cls=cls, n=1)
        roots, why = forest(c, exe, d, cols, "C:t", args, trees, r)
        if roots is not None:
            counts = collections.Counter(x["pred"] for x in roots)
            ev = dict(op="seen", what="balanced samples of trees", s=sch, see=cls, n=trees, counts=dict(counts))
    if ev is None:
        ev = dict(op="failed", why=why)
    return dict(id="%s-%d" % (kind, i), args=" ".join(args), ev=[ev])


def ev_of(what, s, t, results):
    counts = collections.Counter(key(x) for x in results)
    return dict(op="chances", what=what, s=s, t=t, n=len(results), counts=dict(counts))
