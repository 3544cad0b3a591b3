"""Random saved forests applied to random data by applyforest and leafcount, as traces for ApplyTrace."""
import json, os, random, re
from runs import *
from vlib import rat

PREDS = ["c0", "c1", "c1", "x y", "true", "L-3", "a=b", "NA-like", "é"]


def make_schema(r, target):
    fs = []
    for i in range(r.randrange(1, 4)):
        fs.append((r.choice(["N:x", "N:", "N:long name"]) + str(i), "num", None))
    for i in range(r.randrange(0, 4)):
        fs.append((r.choice(["C:k", "C:a b", "B:z"]) + str(i), "cat", ["k%d" % j for j in range(r.choice([2, 3, 6, 12]))]))
    return [f for f in fs if f[0] != target]


def values(r, f, n, miss, unseen):
    out = []
    for _ in range(n):
        if r.random() < miss:
            out.append(r.choice(MISSING))
        elif f[1] == "num":
            out.append(num_text(r, r.choice([0, 0, 0, 1, 1, 2, 3])))
        else:
            out.append("unseen%d" % r.randrange(3) if r.random() < unseen else r.choice(f[2]))
    return out


def make_tree(r, schema, depth, leafpred):
    """lines of a tree below a path"""
    lines = []

    def node(path, d):
        if d == 0 or r.random() < 0.15 and path != "*":
            lines.append("NODE=%s,PRED=%s" % (path, leafpred()))
            return
        f = r.choice(schema)
        inner = ",PRED=%s" % leafpred() if r.random() < 0.2 else ""
        if f[1] == "num":
            v = num_text(r, r.choice([0, 0, 0, 1, 1, 2, 3]))
            lines.append('NODE=%s%s,SPLITTER=%s,SPLITTERTYPE=NUMERICAL,LVALUES=%s,RVALUES=%s' % (path, inner, quote(f[0]), v, v))
        else:
            left = [x for x in f[2] if r.random() < 0.5]
            lines.append('NODE=%s%s,SPLITTER=%s,SPLITTERTYPE=CATEGORICAL,LVALUES="%s"' % (path, inner, quote(f[0]), ":".join(left)))
        node(path + "L", d - 1)
        node(path + "R", d - 1)
        if r.random() < 0.35:
            node(path + "M", d - 1)
    node("*", depth)
    return lines


def quote(s):
    return '"%s"' % s if re.search(r"[,=]|^\s|\s$", s) else s


def make_forest(r, schema, target, kind, trees, intercept, weighted, depths=(0, 1, 1, 2, 3, 4)):
    lines = []
    labs = r.sample(PREDS, r.randrange(2, 5))
    def leafpred():
        if kind == "cat":
            return quote(r.choice(labs))
        return num_text(r, r.randrange(4))
    if intercept is not None:
        lines.append('FOREST=0,TARGET="%s",INTERCEPT=%s' % (target, intercept))
    for t in range(trees):
        w = ",WEIGHT=" + r.choice(["0", "1", "0.5", "2.25", "0.1", "1e-3", repr(r.random())]) if weighted and r.random() < 0.9 else ""
        lines.append('TREE=%d,TARGET="%s"%s' % (t, target, w))
        lines += make_tree(r, schema, r.choice(depths), leafpred)
    return "\n".join(lines) + "\n"


def make_data(r, schema, n, target, kind, extra):
    miss, unseen = r.choice([0, 0.1, 0.4]), r.choice([0, 0, 0.3])
    cols = [Col(f[0], f[1], values(r, f, n, miss, unseen)) for f in schema]
    for i in range(extra):
        cols.append(num_col(r, "N:extra%d" % i, n, 0.1) if r.random() < 0.6 else cat_col(r, "C:extra%d" % i, n, 3, 0.1))
    if target:
        if kind == "num":
            cols.append(num_col(r, target, n, r.choice([0, 0.2])))
        else:
            cols.append(Col(target, "cat", [r.choice(["NA", "other"]) if r.random() < 0.15 else r.choice(PREDS) for _ in range(n)]))
    r.shuffle(cols)
    if r.random() < 0.1:
        # data that lacks some of the features, and so any value of them
        out = set(f[0] for f in r.sample(schema, r.randrange(1, len(schema) + 1)))
        cols = [x for x in cols if x.name not in out] or cols[:1]
    return Table(cols, r.choice([["s%d" % i for i in range(n)], ["%d" % (100 - i) for i in range(n)], ["case %d" % i for i in range(n)]]))


def tree_events(text, numeric):
    ev = [e for e in parse_sf(text) if e["op"] != "header"]
    if numeric:
        for e in ev:
            if e["op"] == "tree":
                to_num(e["nodes"])
    return ev


def apply_run(c, exe, i):
    r = random.Random(c.seed * 9000011 + i)
    d = os.path.join(c.work, "apply%d" % i)
    os.makedirs(d)
    kind = r.choice(["cat", "cat", "num", "num", "sum"])
    target = ("C:t" if kind == "cat" else "N:t") if kind != "sum" else r.choice(["N:t", "C:t"])
    tkind = "cat" if target.startswith("C") else "num"
    intercept = num_text(r, 2) if kind == "sum" and r.random() < 0.7 else None
    flags, mode = [], kind
    if kind == "sum":
        if intercept is None or r.random() < 0.5:
            flags = ["-sum"]
        if r.random() < 0.5:
            flags += ["-expit"]
        if flags[:1] != ["-sum"] and r.random() < 0.35:
            # forced on an additive forest: the labels, or the mean on top of the intercept
            mode = r.choice(["cat", "num"])
            flags += ["-mode" if mode == "cat" else "-mean"]
    elif r.random() < 0.3:
        # the kind of voting may be forced; numbers are labels then, and labels that are no numbers mean nothing
        mode = r.choice(["cat", "num"])
        flags = ["-mode" if mode == "cat" else "-mean"]
    if kind == "cat" and mode == "cat" and r.random() < 0.1:
        flags += ["-expit"]
    schema = make_schema(r, target)
    n = r.choice([r.randrange(1, 14), r.randrange(1, 14), r.randrange(14, 60)])
    with_target = r.random() < 0.7 and mode == ("sum" if kind == "sum" else tkind)
    tab = make_data(r, schema, n, target if with_target else None, tkind, r.randrange(0, 3))
    sf = make_forest(r, schema, target, "num" if kind in ("num", "sum") else "cat", r.choice([1, 1, 2, 4, 7, 25]), intercept, r.random() < 0.6)
    fp, fm, out, vo = (os.path.join(d, x) for x in ("f.sf", "data.fm", "p.tsv", "v.tsv"))
    with open(fp, "w") as f:
        f.write(sf)
    tab.afm(fm, r.random() < 0.3)
    argv = [exe, "-fm", fm, "-rfpred", fp, "-preds", out] + flags
    votes = mode == "cat" and r.random() < 0.6
    if votes:
        argv += ["-votes", vo]
    rc, text, to = c.run(argv, timeout=60, cwd=d)
    ev = tree_events(sf, mode != "cat")
    ev.append(dict(op="exit", ok=rc == 0, hung=to, race=False))
    rs = rows(read(out) or "")
    if any(len(x) != 3 for x in rs):
        ev.append(dict(op="garbled", line="preds"))
    else:
        numcol = with_target and tkind == "num"
        ev.append(dict(op="preds", rows=[[x[0], x[1] if mode == "cat" or num(x[1]) in (None, "nan") else num(x[1]),
                                          num(x[2]) or x[2] if numcol and num(x[2]) != "nan" else x[2]] for x in rs]))
    if votes:
        vs = rows(read(vo) or "")
        if not vs or vs[0][0] != ".":
            ev.append(dict(op="garbled", line="votes"))
        else:
            ev.append(dict(op="votes", labels=vs[0][1:], rows=[dict(case=x[0], votes=[num(y) or "nan" for y in x[1:]]) for x in vs[1:]]))
    te = re.findall(r"^Error: (\S+)$", text, re.M)
    if with_target:
        ev.append(dict(op="error", e=num(te[0]) if te and num(te[0]) else "nan"))
    return dict(id="apply-%s-%d" % (mode, i), judge="apply", mode=mode, n=n, cols=tab.json(), labels=tab.labels,
                target=[tab.col(target).json()] if with_target else [], intercept=num(intercept) if intercept else "0",
                expit="-expit" in flags, args=" ".join(os.path.basename(x) for x in argv[1:]), output=text[-1500:] if rc else "", ev=ev)


def leaf_run(c, exe, race, i):
    r = random.Random(c.seed * 9000049 + i)
    d = os.path.join(c.work, "leaf%d" % i)
    os.makedirs(d)
    schema = make_schema(r, None)
    n = r.choice([r.randrange(1, 13), r.randrange(1, 13), r.randrange(13, 40)])
    tab = make_data(r, schema, n, None, None, r.randrange(0, 2))
    fm = os.path.join(d, "data.fm")
    tab.afm(fm, r.random() < 0.3)
    ev, files = [], []
    nf = r.choice([1, 1, 2, 3, 6, 12])
    many = i % 160 == 7    # counts that take more than a byte
    if many:
        n, nf = min(n, 4), 3
        tab = Table([col.take(range(n)) for col in tab.cols], tab.labels[:n])
        tab.afm(fm)
    for k in range(nf):
        sf = make_forest(r, schema, "N:t", r.choice(["num", "cat"]), 110 if many else r.choice([1, 1, 2, 5]), "1.5" if r.random() < 0.2 else None, r.random() < 0.4, (0, 1) if many else (0, 1, 1, 2, 3, 4))
        files.append(os.path.join(d, "f%d.sf" % k))
        with open(files[-1], "w") as f:
            f.write(sf)
        ev += [e for e in tree_events(sf, False)]
    threads = r.choice([1, 2, 3, 8])
    raced = threads > 1 and nf > 1 and r.random() < 0.4
    lf, bf, spf = (os.path.join(d, x) for x in ("l.tsv", "b.tsv", "s.json"))
    argv = [race if raced else exe, "-fm", fm, "-rfpred", ",".join(files), "-leaves", lf, "-threads", str(threads)]
    br, sp = r.random() < 0.7, r.random() < 0.7 and not many
    argv += (["-branches", bf] if br else []) + (["-splits", spf] if sp else [])
    rc, text, to = c.run(argv, timeout=90, cwd=d, env={"GORACE": "halt_on_error=1 exitcode=66"} if raced else None)
    ev.append(dict(op="exit", ok=rc == 0, hung=to, race="DATA RACE" in text or "concurrent map" in text))

    def ints(path, what):
        rs = rows(read(path) or "")
        try:
            return dict(op=what, rows=[[int(x[0]) + 1, int(x[1]) + 1, int(x[2])] for x in rs if len(x) == 3 or 1 / 0])
        except (ValueError, ZeroDivisionError, IndexError):
            return dict(op="garbled", line=what)
    ev.append(ints(lf, "leaves"))
    if br:
        ev.append(ints(bf, "branches"))
    if sp:
        try:
            js = json.loads(read(spf) or "")
            kinds = {f[0]: f[1] for f in schema}
            ev.append(dict(op="splits", by=[dict(name=k, kind=kinds.get(k, "cat"),
                      at=[(num(x) or "nan") if kinds.get(k) == "num" else [y for y in x.split(",") if y] for x in v]) for k, v in sorted(js.items())]))
        except ValueError:
            ev.append(dict(op="garbled", line="splits"))
    return dict(id="leaves-%d" % i, judge="leaves", mode="cat", n=n, cols=tab.json(), labels=tab.labels, target=[], intercept="0", expit=False,
                args=" ".join(os.path.basename(x) for x in argv[1:]), output=text[-1500:] if rc else "", ev=ev)
