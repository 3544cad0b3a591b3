"""Runs of nfold as traces for FoldTrace."""
import os, random
from runs import MISSING, Col, Table, num_text, read
from formats import nums

LABELS = ["a", "b", "c 1", "true", "1", "x=y", "é", "D", "e-e", "k:l"]


def fold_run(c, exe, i):
    r = random.Random(c.seed * 9000067 + i)
    d = os.path.join(c.work, "fold%d" % i)
    os.makedirs(d)
    n = r.choice([1, 2, 3, 5, 8, 10, 13, 17, 24, 31])
    folds = r.choice([1, 2, 3, 4, 5, 5, 7])
    cols = []
    for j in range(r.choice([0, 1, 2, 3, 5])):
        miss = r.choice([0, 0, 0.15, 0.5])
        if r.random() < 0.5:
            st = r.randrange(4)
            cols.append(Col("N:x%d" % j, "num", [r.choice(MISSING) if r.random() < miss else num_text(r, st) for _ in range(n)]))
        else:
            labs = r.sample(LABELS, r.choice([1, 2, 2, 3, 4, 6]))
            cols.append(Col(r.choice(["C:k", "B:z"]) + str(j), "cat", [r.choice(MISSING) if r.random() < miss else r.choice(labs) for _ in range(n)]))
    k = r.choice([1, 2, 2, 3, 4])
    tmiss = r.choice([0, 0, 0.2])
    skew = r.random()
    tkind = r.choice(["cat", "cat", "cat", "num"])
    if tkind == "cat":
        labs = r.sample(LABELS, k)
        vals = [r.choice(MISSING) if r.random() < tmiss else labs[0] if r.random() < skew * 0.8 else r.choice(labs) for _ in range(n)]
        if all(v in MISSING for v in vals):
            vals[0] = labs[0]
        target = Col("C:target", "cat", vals)
    else:
        target = Col("N:target", "num", [r.choice(MISSING) if r.random() < tmiss else num_text(r, r.randrange(4)) for _ in range(n)])
    ids = [str(x + 1) for x in range(n)] if r.random() < 0.5 else [repr((x + 1) * 1.25) for x in range(n)]
    r.shuffle(ids)
    cols += [Col("N:id", "num", ids), target]
    r.shuffle(cols)
    tab = Table(cols, r.choice([["s%d" % x for x in range(n)], ["case %d" % x for x in range(n)], ["%d" % (n - x) for x in range(n)]]))
    fm = os.path.join(d, "in.fm")
    tab.afm(fm, cols[0].name[:2] in ("N:", "C:", "B:") and r.random() < 0.3)
    # an absent target has no column in libSVM files
    fmts = r.choice([["afm"], ["afm"], ["arff"], ["svm"], ["arff", "svm"], ["afm", "arff", "svm"], ["afm", "arff", "svm"]])
    tname = target.name
    if "svm" not in fmts and r.random() < 0.1:
        tname = r.choice(["", "N:nosuch"])
    argv = [exe, "-fm", fm, "-folds", str(folds), "-train", os.path.join(d, "tr_%v.fm"), "-test", os.path.join(d, "te_%v.fm")]
    if tname:
        argv += ["-target", tname]
    if len(fmts) == 3:
        argv += ["-writeall"] + r.choice([[], [], ["-writearff"], ["-writelibsvm"], ["-writearff", "-writelibsvm"]])
    else:
        argv += {"arff": ["-writearff"], "svm": ["-writelibsvm"]}.get(fmts[0], [])
        if len(fmts) == 2:
            argv += ["-writelibsvm"]
    impute, onehot, enc = r.random() < 0.3, r.random() < 0.3, r.random() < 0.3
    strat = r.random() < 0.8
    argv += ["-impute"] * impute + ["-onehot"] * onehot + ["-num"] * enc + ["-unstratified"] * (not strat)
    black = []
    if r.random() < 0.3:
        black = r.sample([x.name for x in cols if x.name != "N:id"], r.randrange(1, len(cols))) + ["nosuch"]
        with open(os.path.join(d, "black"), "w") as f:
            f.write("".join(b + "\n" for b in black))
        argv += ["-blacklist", os.path.join(d, "black")]
    maxcats = -1
    tcats = len(set(target.val(x) for x in target.known())) if target.kind == "cat" else 0
    if r.random() < 0.2:
        maxcats = max(r.choice([1, 2, 3, 4]), tcats)
        argv += ["-maxcats", str(maxcats)]
    rc, text, to = c.run(argv, timeout=60, cwd=d)
    ev = [dict(op="exit", ok=rc == 0 and not to), dict(op="file", text=open(fm).read())]
    ext = {"afm": "", "arff": ".arff", "svm": ".libsvm"}
    if rc == 0 and not to:
        for f in fmts:
            for k in range(folds):
                a, b = (read(os.path.join(d, "%s_%d.fm%s" % (x, k, ext[f]))) for x in ("te", "tr"))
                if a is None or b is None:
                    continue
                ev.append(dict(op="fold", i=k + 1, fmt=f, test=a, train=b))
        ev.append(dict(op="done"))
    texts = [e[x] for e in ev for x in ("text", "test", "train") if x in e]
    return dict(id="nfold-%d" % i, nums=nums(texts), ev=ev, args=" ".join(os.path.basename(x) for x in argv[1:]), output=text[-1500:] if rc else "",
                opts=dict(target=tname, folds=folds, strat=strat, black=black, maxcats=maxcats, impute=impute, onehot=onehot, num=enc, formats=fmts))
