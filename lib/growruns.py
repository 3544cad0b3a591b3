"""Runs of growforest on random tables in every mode, recorded as traces for RunTrace."""
import os, random, re, time
from runs import *

CAT_MODES = ["plain", "plain", "entropy", "cost", "dentropy", "adacost", "rfweights", "NP", "hellinger", "adaboost", "gbt", "trans"]
NUM_MODES = ["plain", "plain", "l1", "ordinal", "adaboost", "gbt", "density"]


def make_table(r, kind, distinct, n=None, few=None):
    n = n or r.randrange(8, 33)
    cols = [Col("N:id", "num", [str(x) for x in r.sample(range(3 * n), n)])]
    for i in range(r.randrange(0, 4)):
        cols.append(num_col(r, "N:x%d" % i, n, r.choice([0, 0, 0.1, 0.4])))
    for i in range(r.randrange(0, 3)):
        cols.append(cat_col(r, "C:k%d" % i, n, r.choice([1, 2, 3, 5, 8, 14]), r.choice([0, 0, 0.2])))
    if r.random() < 0.2:
        cols.append(Col("B:b", "cat", [r.choice(["true", "false"]) for _ in range(n)]))
    pm = r.choice([0, 0, 0.1, 0.3])
    if kind == "num":
        if distinct:
            t = Col("N:t", "num", [str(x) for x in r.sample(range(-2 * n, 3 * n), n)])
        else:
            t = num_col(r, "N:t", n, 0)
    elif distinct:
        t = Col("C:t", "cat", ["L%d" % i for i in r.sample(range(n), n)])
    else:
        k = few or r.choice([2, 2, 3, 4])
        labs = ["yes", "no"] if k == 2 and r.random() < 0.5 else ["c%d" % i for i in range(k)]
        t = Col("C:t", "cat", [labs[i % k] if i < k else r.choice(labs) for i in range(n)])
    keep = set(r.sample(range(n), max(min(4, (n + 1) // 2), n // 2)))
    for i in range(n):
        if i not in keep and r.random() < pm:
            t.text[i] = "NA"
    cols.append(t)
    r.shuffle(cols)
    return Table(cols, ["case%d" % (i + 1) for i in range(n)]), t


def make_run(r, i, focus):
    """one random configuration: table, arguments and what may be judged"""
    kind = r.choice(["cat", "num"])
    mode = r.choice(CAT_MODES if kind == "cat" else NUM_MODES)
    if focus in ("oob", "imp") and r.random() < 0.75 or focus == "test" and r.random() < 0.5:
        mode = r.choice(["plain", "plain", "entropy"]) if kind == "cat" else "plain"
    if focus == "tiny" and r.random() < 0.5:
        mode = r.choice(["adacost", "adaboost", "gbt"] if kind == "cat" else ["adaboost", "gbt"])
    distinct = r.random() < (0.75 if focus == "oob" else 0.3) and mode in ("plain", "entropy")
    tab, t = make_table(r, kind, distinct, n=r.choice([1, 2, 2, 3, 4, 5, 7]) if focus == "tiny" else None, few=2 if mode in ("hellinger", "gbt") else None)
    if mode == "ordinal":    # documented to be for non negative integers
        for j in t.known():
            t.text[j] = str(r.randrange(6))
    n, labs = tab.n, sorted(set(t.text[i] for i in t.known()))
    trees = r.choice([1, 2, 3, 5, 8, 12])
    cores = r.choice([1, 1, 2, 3, 4, 8])
    if focus == "sched":
        cores, trees = r.choice([2, 3, 4, 6, 8]), r.choice([1, 2, 3, 4, 7, 9, 16, 24])
    a = ["-nTrees", str(trees), "-nCores", str(cores)]
    boost = mode in ("adaboost", "gbt", "adacost")
    cost = "{%s}" % ",".join('"%s":%s' % (l, r.choice(["1", "2", "0.5", "3.25"])) for l in labs)
    a += {"plain": [], "entropy": ["-entropy"], "cost": ["-cost", cost], "dentropy": ["-dentropy", cost], "adacost": ["-adacost", cost],
          "rfweights": ["-rfweights", cost], "NP": ["-NP", "-NP_pos", labs[0]], "hellinger": ["-hellinger", "-positive", labs[0]],
          "adaboost": ["-adaboost"], "gbt": ["-gbt", r.choice(["0.1", "0.5", "1"])] + (["-positive", labs[0]] if kind == "cat" else []),
          "trans": ["-trans_unlabeled", labs[-1]], "l1": ["-l1"], "ordinal": ["-ordinal"], "density": ["-density"]}[mode]
    feats = [c for c in tab.cols if c is not t]
    pure = distinct or (kind == "cat" and mode in ("plain", "entropy"))
    leaf = 0
    if pure and r.random() < (0.9 if focus == "oob" else 0.5):
        leaf = 1
        a += ["-leafSize", "1", "-mTry", str(len(feats))]
    else:
        pure = False
        if r.random() < 0.6:
            leaf = r.choice([1, 1, 2, 3])
            a += ["-leafSize", r.choice([str(leaf)] * 3 + ["0.1"])]
        if r.random() < 0.5:
            a += ["-mTry", r.choice(["1", "2", ".5", str(len(feats))])]
        if r.random() < 0.3:
            a += ["-maxDepth", str(r.randrange(1, 5))]
        for f, p in (("-vet", .12), ("-evaloob", .12), ("-extra", .1), ("-force", .3), ("-jungle", .15 if not boost else 0)):
            if r.random() < p and not (f in ("-vet", "-evaloob") and mode in ("density", "trans")):
                a += [f]
    if r.random() < 0.4:
        a += ["-splitmissing"]
    # the sample
    known = len(t.known())
    nsamples, unbagged = known, False
    x = r.random()
    if x < 0.2 or (boost and x < 0.5):
        a += ["-nobag"]
        unbagged = True
    elif kind == "cat" and x < 0.35 and mode != "density":
        a += ["-balance"]
    elif kind == "cat" and x < 0.45 and any(c.kind == "cat" for c in feats):
        a += ["-balanceby", r.choice([c.name for c in feats if c.kind == "cat"])]
    if r.random() < 0.35:
        nsamples = r.randrange(min(2, known), known + 1) if unbagged else r.randrange(2, known + 6)
        a += ["-nSamples", str(nsamples)]
    bag = "none"
    if pure:
        bag = "exact" if distinct else "bound"
    if unbagged and nsamples == known:
        bag = "all"
    return dict(tab=tab, t=t, kind=kind, mode=mode, trees=trees, cores=1 if boost else min(cores, trees), boost=boost, args=a,
                nsamples=nsamples, unbagged=unbagged and bag == "exact", bag=bag, eligible=[c.name for c in feats], must=[],
                features=tab.names(), test=None, header=mode == "gbt", tainted=False)


def add_outputs(r, g, d, focus):
    """the reports asked for"""
    a = g["args"]
    g["files"] = {}
    def out(flag, name):
        g["files"][flag] = os.path.join(d, name)
        return [flag, g["files"][flag]]
    a += out("-rfpred", "f.sf")
    if focus == "oob" or r.random() < 0.4:
        x = r.randrange(5)
        a += [["-oob"], ["-progress"], ["-progress"], [], []][x]
        a += out("-oobpreds", "oob.tsv") if x > 1 else []
    if focus == "test" or r.random() < 0.4:
        if r.random() < 0.5:
            a += ["-selftest"]
        else:
            g["test"] = test_table(r, g)
            g["test"].afm(os.path.join(d, "test.fm"), r.random() < 0.3)
            a += ["-test", os.path.join(d, "test.fm")]
    if focus == "imp" or r.random() < 0.3:
        a += out("-importance", "imp.tsv")


def test_table(r, g):
    """data to test on: the columns in another order, other values and labels"""
    n = r.randrange(3, 25)
    cols = []
    for c in g["tab"].cols:
        text = []
        for _ in range(n):
            x = r.random()
            if c is g["t"]:
                k = c.known()
                text.append("NA" if x < 0.1 else c.text[r.choice(k)] if x < 0.95 or c.kind == "num" else "other")
            else:
                text.append(r.choice(MISSING) if x < 0.1 else r.choice(c.text) if x < 0.8 else num_text(r, r.randrange(4)) if c.kind == "num" else "new")
        cols.append(Col(c.name, c.kind, text))
    if r.random() < 0.3:
        cols.append(num_col(r, "N:extra", n))
    r.shuffle(cols)
    return Table(cols, ["u%d" % i for i in range(n)])


def add_eligibility(r, g, d):
    """restrict the features that may be split on; one of those left tells the target"""
    tab, t, a = g["tab"], g["t"], g["args"]
    names = [c.name for c in tab.cols if c is not t]
    out = set()
    if r.random() < 0.6:
        b = [x for x in names if r.random() < 0.4] + r.choice([[], ["N:nosuch"]])
        if r.random() < 0.3:
            b += b[:1]
        if b:
            with open(os.path.join(d, "black.tsv"), "w") as f:
                f.write("".join(x + r.choice(["\n", "\tcomment\n"][:1]) for x in b))
            a += ["-blacklist", os.path.join(d, "black.tsv")]
            out |= set(b)
    if r.random() < 0.5:
        e = r.choice(["^C:", "x1", "k[01]$", ":x", "[tT]", "nothing", "^N:id$"])
        a += ["-blockRE", e]
        out |= {x for x in names if re.search(e, x)}
    if r.random() < 0.5:
        e = r.choice(["^N:", "id|t", "x", "[0-9]", "^[NC]", "x*", "(C:)?k"])
        a += ["-includeRE", e]
        out |= {x for x in names if not re.search(e, x)}
    left = [x for x in names if x not in out]
    g["eligible"] = left
    return left


def strip(text):
    """stdout without what differs between runs of the same kind"""
    return "\n".join(l for l in text.splitlines() if "training time" not in l)


def parse_stdout(text):
    ev = []
    prog = re.findall(r"^Model oob error after tree (\d+) : (\S+)$", text, re.M)
    o = re.findall(r"^Out of Bag Error : (\S+)$", text, re.M)
    te = re.findall(r"^Error: (\S+)$", text, re.M)
    cl = re.findall(r"^Classified: (\d+) / (\d+) = \S+$", text, re.M)
    nas = re.findall(r"^Couldn't predict (\d+) cases due to missing values\.$", text, re.M)
    lp = re.findall(r"^Label (.*) Percision \(Actuall/Predicted\): (-?\d+) / (\d+) = (\S+)$", text, re.M)
    lm = re.findall(r"^Label (.*) Missed/Actuall Rate: (-?\d+) / (\d+) = (\S+)$", text, re.M)
    return prog, o, te, cl, nas, lp, lm


def trace(g, i, judge, res):
    rc, text, to = res
    kind, t = g["kind"], g["t"]
    ev = [dict(op="exit", ok=rc == 0, hung=to, race="DATA RACE" in text or "concurrent map" in text)]
    sf = read(g["files"]["-rfpred"]) or ""
    fev = parse_sf(sf)
    if kind == "num":
        for e in fev:
            if e["op"] == "tree":
                to_num(e["nodes"])
    prog, o, te, cl, nas, lp, lm = parse_stdout(text)
    if "oob" in judge and g["cores"] == 1 and prog and not g["tainted"]:
        k, out = 0, []
        for e in fev:
            out.append(e)
            if e["op"] == "tree":
                if k < len(prog):
                    out.append(dict(op="progress", no=int(prog[k][0]), e=num(prog[k][1])))
                k += 1
        fev = out
    ev += fev
    ev.append(dict(op="end"))
    if "oob" in judge or "rows" in judge:
        if "-oobpreds" in g["files"]:
            rs = rows(read(g["files"]["-oobpreds"]) or "")
            if any(len(x) != 3 for x in rs):
                ev.append(dict(op="garbled", line="oobpreds"))
            if kind == "num":
                rs = [[x[0]] + [num(y) if num(y) not in (None, "nan") else y for y in x[1:]] for x in rs]
            ev.append(dict(op="oobpreds", rows=rs))
        if set(g["args"]) & {"-oob", "-progress", "-oobpreds"}:
            ev.append(dict(op="ooberror", e=num(o[0]) if len(o) == 1 else "nan"))
    if "test" in judge and set(g["args"]) & {"-test", "-selftest"}:
        ev.append(dict(op="testerror", e=num(te[0]) if len(te) == 1 else "nan"))
        if kind == "cat":
            ev.append(dict(op="classified", c=int(cl[0][0]) if cl else -1, n=int(cl[0][1]) if cl else -1, nas=int(nas[0]) if nas else 0))
            for p, m in zip(lp, lm):
                if p[0] != m[0]:
                    ev.append(dict(op="garbled", line="labels " + p[0]))
                ev.append(dict(op="label", label=p[0], wrong=int(p[1]), pred=int(p[2]), missed=int(m[1]), actual=int(m[2])))
    if "imp" in judge and "-importance" in g["files"]:
        rs = rows(read(g["files"]["-importance"]) or "")
        if any(len(x) != 7 for x in rs):
            ev.append(dict(op="garbled", line="importance"))
        else:
            ev.append(dict(op="importance", rows=[dict(name=x[0], mean=num(x[1]), count=num(x[2]), pertree=num(x[3]), peruse=num(x[4]),
                                                       uses=num(x[5]), depth=num(x[6])) for x in rs]))
    if "again" in g:
        ev.append(dict(op="same", first=g["again"][0], second=g["again"][1]))
    tt = g["test"]
    need = "oob" in judge or "test" in judge
    return dict(id="%s-%s-%d" % (kind, g["mode"], i), n=g["tab"].n, cols=g["tab"].json() if need else [], target=t.json(),
                labels=g["tab"].labels, kind=kind, want=g["trees"], eligible=g["eligible"], must=g["must"], bag=g["bag"], nsamples=g["nsamples"],
                unbagged=g["unbagged"], header=g["header"], weights=g["boost"], features=g["features"], judge=list(judge),
                test=[dict(cols=tt.json(), target=tt.col(t.name).json(), n=tt.n)] if tt else [],
                args=" ".join(os.path.basename(x) for x in g["args"]), output=text[-1500:] if rc else "", ev=ev)


# ---- which features may be used ---------------------------------------------------
def told(r, name, kind, cls):
    """a feature that tells the class of every case"""
    if kind == "num":
        return Col(name, "num", [repr(round((10 if c else 0) + r.random() * 4, 4)) for c in cls])
    labs = r.choice([["a", "b"], ["true", "false"], ["u", "v", "w", "x"], ["d%d" % j for j in range(9)]])
    half = len(labs) // 2
    return Col(name, "cat", [r.choice(labs[:half] if c else labs[half:]) for c in cls])


def make_elig(r, i, d):
    """every feature tells the target, and one feature is tried per node: all that may be used will be"""
    n = r.randrange(20, 30)
    cls = [j % 2 for j in range(n)]
    r.shuffle(cls)
    if r.random() < 0.6:
        t = Col(r.choice(["C:t", "B:target", "C:x1t"]), "cat", [["no", "yes"][c] for c in cls])
    else:
        t = Col(r.choice(["N:t", "N:x1t"]), "num", [str(c * 100) for c in cls])
    pool = ["N:x1", "N:x2", "N:id", "C:k0", "C:k1", "C:x11", "B:b", "N:a.b", "C:N:z", "n:low"]
    contrasts = r.choice(["", "", "", "all", "some", "ace", "ace", "cut"])
    names = r.sample(pool, r.randrange(1, 4 if contrasts in ("all", "ace") else 6))
    cols = [told(r, x, "num" if x.startswith("N:") else "cat", cls) for x in names] + [t]
    r.shuffle(cols)
    tab = Table(cols)
    real = [c.name for c in cols]
    extra = []
    a = ["-mTry", "1", "-nTrees", "220", "-nCores", r.choice(["1", "2", "4"])]
    if t.kind == "num":
        a += ["-leafSize", "1"]
    a += r.choice([[], [], [], ["-jungle"], ["-force"], ["-l1"] if t.kind == "num" else ["-entropy"], ["-balance"] if t.kind == "cat" else ["-nobag"]])
    if contrasts == "all":
        a += ["-contrastall"]
        extra = [x + ":SHUFFLED" for x in real]
    if contrasts == "some":
        a += ["-nContrasts", str(r.randrange(1, 4))]
        extra = [x + ":SHUFFLED" for x in real]       # some of them
    g = dict(tab=tab, t=t, args=a, contrasts=contrasts)
    names = real + extra
    out = {t.name}
    if r.random() < 0.6:
        b = [x for x in names if r.random() < 0.35] + r.choice([[], ["N:nosuch"], ["C:k"], ["N:x"]])
        b += b[:1]
        if b:
            with open(os.path.join(d, "black.tsv"), "w") as f:
                f.write("".join(x + r.choice(["", "\tx"][:1]) + "\n" for x in b))
            a += ["-blacklist", os.path.join(d, "black.tsv")]
            out |= set(b)
    if r.random() < 0.4:
        e = r.choice(["^C:", "x1", "k[01]$", ":x", "t$", "nothing", "^N:id$", "SHUFFLED", "a.b", "^[NB]"])
        a += ["-blockRE", e]
        out |= {x for x in names if re.search(e, x)}
    if r.random() < 0.4:
        e = r.choice(["^N:", "id|k", "x", "[0-9]", "^[NC]", "^C:x|^N", ".", "z*", "^", "(N:)?x|k"])
        a += ["-includeRE", e]
        out |= {x for x in names if not re.search(e, x)}
    ok = [x for x in names if x not in out]
    g["features"] = names
    g["printed"] = ok if contrasts != "some" else None
    g["must"] = [x for x in ok if x in real or contrasts == "all"]
    g["eligible"] = ok
    if contrasts in ("ace", "cut"):
        a[3] = "120" if contrasts == "ace" else "60"
        a += ["-ace", "6", "-importance", os.path.join(d, "ace.tsv")]
        if contrasts == "cut":
            a += ["-cutoff", "0.5"]
        else:
            g["eligible"] = ok + [x + ":SHUFFLED" for x in ok]
            g["must"] = ok
            g["printed"] = None
    g["file"] = os.path.join(d, "f.sf")
    a += ["-rfpred", g["file"]]
    return g


def elig_trace(g, i, res):
    rc, text, to = res
    ev = [dict(op="exit", ok=rc == 0, hung=to, race=False)]
    m = re.findall(r"^Non Target Features : (-?\d+)$", text, re.M)
    if g["printed"] is not None:
        ev.append(dict(op="features", n=int(m[0]) if m else -1))
    ev += parse_sf(read(g["file"]) or "") + [dict(op="end")]
    if "-ace" in g["args"]:
        rs = rows(read(g["args"][g["args"].index("-importance") + 1]) or "")
        if any(len(x) != 4 for x in rs):
            ev.append(dict(op="garbled", line="ace"))
        else:
            ev.append(dict(op="ace", rows=[dict(target=x[0], name=x[1], p=num(x[2]), m=num(x[3])) for x in rs]))
    return base("elig-%d" % i, g, ["elig"], ev, rc, text, want=int(g["args"][3]))


def base(id, g, judge, ev, rc, text, want):
    return dict(id=id, n=g["tab"].n, cols=g["tab"].json() if "perm" in judge else [], target=g["t"].json(), labels=[], kind=g["t"].kind, want=want,
                eligible=g["eligible"], must=g["must"], bag="none", nsamples=0, unbagged=False, header=False, weights=False,
                features=g["features"], judge=judge, test=[], args=" ".join(os.path.basename(x) for x in g["args"]),
                output=text[-1500:] if rc else "", ev=ev)


def make_perm(r, i, d):
    """one feature with distinct values, distinct targets, everything in the bag: what is permuted shows"""
    n = r.randrange(14, 30)
    idc = Col("N:id", "num", [str(x) for x in r.sample(range(3 * n), n)])
    if r.random() < 0.5:
        t = Col("N:t", "num", [str(x) for x in r.sample(range(-n, 3 * n), n)])
    else:
        t = Col("C:t", "cat", ["L%d" % j for j in r.sample(range(n), n)])
    cols = [idc, t, num_col(r, "N:x", n, 0.2), cat_col(r, "C:k", n, 4)]
    r.shuffle(cols)
    a = ["-nobag", "-leafSize", "1", "-mTry", "1", "-nTrees", str(r.randrange(1, 5)), "-nCores", r.choice(["1", "2"]), "-includeRE", "^N:id$"]
    still = r.random() < 0.25     # the target is no feature, so it is never shuffled as one
    a += ["-shuffleRE", ":t$"] if still else r.choice([["-permute"], ["-shuffleRE", "^N:"], ["-shuffleRE", "id"], ["-permute", "-shuffleRE", "^N:i"]])
    g = dict(tab=Table(cols), t=t, args=a, eligible=["N:id"], must=[], features=[c.name for c in cols], file=os.path.join(d, "f.sf"), still=still)
    a += ["-rfpred", g["file"]]
    return g


def perm_trace(g, i, res):
    rc, text, to = res
    ev = [dict(op="exit", ok=rc == 0, hung=to, race=False)]
    fev = parse_sf(read(g["file"]) or "")
    if g["t"].kind == "num":
        for e in fev:
            if e["op"] == "tree":
                to_num(e["nodes"])
    ev += fev + [dict(op="end")]
    return base("perm-%d" % i, g, ["elig", "perm"] + ["still"] * g["still"], ev, rc, text, want=int(g["args"][6]))
