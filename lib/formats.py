"""Texts in AFM, ARFF and libSVM, what the library and toafm make of them, as traces for FormatTrace."""
import json, os, random, re, zipfile
from runs import num, read

MISS = ["", "?", "NA", "na", "nan", "NaN", "null", "NULL", "Nan"]
NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def nums(texts):
    """what the tokens of the texts denote as numbers"""
    out = {"0": "0"}
    for t in texts:
        for tok in set(re.split(r'[\t\n\r ,:"]', t)):
            if NUMBER.match(tok):
                v = num(tok)
                if v not in (None, "nan", "inf", "-inf"):
                    out[tok] = v
    return out


def number(r, style):
    if style == 0:
        return r.choice(["0", "1", "2", "-3", "10", "007", "+4"])
    if style == 1:
        return r.choice(["0.5", "-0.25", ".5", "5.", "1.0", "1.50", "-0", "0.0", "+1.5"])
    if style == 2:
        return r.choice(["1e3", "1E-5", "2.5e+2", "-1e-7", "6.02e23", "1e-300", "123456789.123", "9007199254740993"])
    return repr(r.uniform(-1000, 1000))


LABELS = ["a", "b", "A", "x y", "1", "1.0", "01", "true", "True", "a:b", "k=v", "é", "a;b", "naa", "none", "N:x", "*", "-", "long category name with words",
          "a,b", 'say "hi"', " lead", '5" pipe', "tab\tin", "two\nlines", "'q'", "{x}", "@data", "#", "%", "% x"]


def label(r, fmt, k):
    return r.choice(LABELS[:k]) if r.random() < 0.9 else "L%d" % r.randrange(40)


def gen_cols(r, fmt, n):
    cols = []
    miss = r.choice([0, 0.1, 0.1, 0.5])
    for j in range(r.choice([1, 1, 2, 3, 3, 5, 9])):
        isnum = r.random() < 0.5
        if fmt == "afm":
            name = "%s%s%d" % (r.choice(["N:", "N:", "N:long name ", "N:back \\ "]) if isnum else r.choice(["C:", "B:", "C:a b ", "C:tab\t", "clin", "n:", "NN:"]), r.choice(["x", "y", 'q"', "é"]), j)
        else:
            name = "%s%s%d" % (r.choice(["", "N:", "C:"]), r.choice(["x", "Y_", "k,", "two words ", "it's", "'q'", 'a "b" ', "tab\there", "back\\slash", "back \\ slash\\"] if fmt == "arff" else ["x"]), j)
        if isnum:
            st = r.choice([None, 0, 1, 2, 3])
            vals = [r.choice(MISS + ["abc", "1.2.3", "--1"]) if r.random() < miss else number(r, r.randrange(4) if st is None else st) for _ in range(n)]
        else:
            k = r.choice([1, 2, 2, 3, 8, len(LABELS)])
            if fmt == "svm":
                k = min(k, 8)
            if r.random() < 0.1:
                vals = [r.choice(MISS) for _ in range(n)]
            else:
                vals = [r.choice(MISS) if r.random() < miss else label(r, fmt, k) for _ in range(n)]
        cols.append((name, isnum, vals))
    return cols


def field(r, s, comma, always=0.05):
    if re.search('["\n%s]' % comma, s) or s.startswith(" ") and comma != "\t" or r.random() < always:
        return '"' + s.replace('"', '""') + '"'
    return s


def lines(r, ls, blank=True):
    nl = r.choice(["\n", "\n", "\r\n"])
    out = ""
    for l in ls:
        out += l + nl
        if blank and r.random() < 0.03:
            out += nl
    return out if r.random() < 0.6 else out.rstrip("\r\n")


def afm_text(r, labels, cols, turned):
    rows = [[r.choice([".", "", "id", "feature"]) if labels else "."] + labels] + [[c[0]] + c[2] for c in cols]
    if turned:
        rows = [list(x) for x in zip(*rows)]
    return lines(r, ["\t".join(field(r, x, "\t") for x in row) for row in rows], blank=True)


def arff_name(r, name):
    if not re.search("[ \t]", name) and name[0] not in "'\"" and r.random() < 0.9:
        return name
    q = r.choice("'\"")
    return q + name.replace("\\", "\\\\").replace(q, "\\" + q) + q


def arff_text(r, cols, n):
    out = [r.choice(["@RELATION x", "@relation 'a b'", "% a comment\n@relation y"]), ""]
    for name, isnum, vals in cols:
        kind = r.choice(["NUMERIC", "numeric", "Real", "integer"]) if isnum else r.choice(["{%s}" % ",".join(sorted(set(vals)))[:30].replace("\n", ""), "{a, b}", "string", "STRING"])
        out.append("%s%s%s%s%s" % (r.choice(["@ATTRIBUTE", "@attribute", "@Attribute"]), r.choice([" ", "  ", "\t"]), arff_name(r, name), r.choice([" ", "\t"]), kind))
        if r.random() < 0.1:
            out.append(r.choice(["", "% an @attribute that is none"]))
    out += ["", r.choice(["@DATA", "@data", "@Data"])]
    sep = r.choice([",", ",", ", "])
    for i in range(n):
        row = [field(r, c[2][i] or "?", ",") for c in cols]
        if len(cols) == 1 and r.random() < 0.2 or row[0].startswith("%"):
            row[0] = '"%s"' % row[0] if not row[0].startswith('"') else row[0]
        out.append(sep.join(row))
        if r.random() < 0.1:
            out.append(r.choice(["% comment, with a comma", "", '%"']))
    nl = r.choice(["\n", "\n", "\r\n"])
    t = nl.join(out) + nl
    return t if r.random() < 0.6 else t.rstrip("\r\n")


def svm_text(r, n):
    cls = r.random() < 0.5
    feats = r.choice([1, 2, 3, 6, 15])
    ls = []
    st = r.choice([0, 1, 3, None])
    miss = r.choice([0, 0, 0, 0.3])
    for i in range(n):
        t = r.choice(["0", "1", "-1", "+1", "2", "10"]) if cls else (r.choice(["0.5", "1.0", "-2.25", "1.5e3", "3."]) if i == 0 else number(r, r.randrange(4)))
        idx = [j for j in range(1, feats + 1) if r.random() < 0.5]
        if r.random() < 0.2:
            r.shuffle(idx)
        sep = r.choice([" ", " ", "  ", "\t"])
        ls.append(r.choice(["", "", " "]) + sep.join([t] + ["%d:%s" % (j, r.choice(MISS) if r.random() < miss else number(r, r.randrange(4) if st is None else st)) for j in idx]) + r.choice(["", "", " "]))
    return lines(r, ls)


def job(r, i):
    fmt = r.choice(["afm", "afm", "arff", "svm"])
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 14])
    if fmt == "svm":
        n = max(n, 1)
        text = svm_text(r, n)
        names = ["0"]
    elif fmt == "arff":
        cols = gen_cols(r, "arff", n)
        text, names = arff_text(r, cols, n), [c[0] for c in cols]
    else:
        cols = gen_cols(r, "afm", n)
        labels = ["%s%d" % (r.choice(["s", "case ", "TCGA-", "", 'l"']), k) for k in range(n)]
        turned = cols[0][0][:2] in ("N:", "C:", "B:") and r.random() < 0.5
        text, names = afm_text(r, labels, cols, turned), [c[0] for c in cols]
    # lines within quotes end in plain newlines only
    writes = []
    for w in range(r.choice([0, 2, 4])):
        f = r.choice(["afm", "arff", "svm"])
        cases = list(range(n)) if r.random() < 0.5 else r.sample(range(n), r.randrange(n + 1))
        writes.append(dict(Fmt=f, Cases=cases, Target=r.choice(names), Again=r.random() < 0.8 and (f != "svm" or cases == list(range(n)))))
    return dict(id="%s-%d" % (fmt, i), Fmt=fmt, Text=text, Writes=writes)


def finish(t):
    t["nums"] = nums([e["text"] for e in t["ev"] if "text" in e])
    return t


def library(c, n):
    r = random.Random(c.seed * 77003)
    path = os.path.join(c.work, "jobs.ndjson")
    jobs = []
    for i in range(n):
        j = job(r, i)
        if r.random() < 0.3:
            ext = {"arff": ".arff", "svm": ".libsvm", "afm": r.choice([".fm", ".afm", ".tsv", ".zip", ".arff.fm", ".libsvm.tsv", "arff"])}[j["Fmt"]]
            j["File"] = os.path.join(c.work, "j%d%s" % (i, ext))
            if ext == ".zip":
                with zipfile.ZipFile(j["File"], "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                    z.writestr("data.fm", j["Text"])
            else:
                with open(j["File"], "w", newline="") as f:
                    f.write(j["Text"])
        jobs.append(j)
    with open(path, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    return [finish(t) for t in c.drive("formats", ["-gen", path])]


def toafm_run(c, exe, i):
    r = random.Random(c.seed * 9000031 + i)
    d = os.path.join(c.work, "toafm%d" % i)
    os.makedirs(d)
    while True:
        j = job(r, i)
        if j["Text"].strip() and "@data" not in j["Text"].lower().split("\n")[-1]:
            break
    src = os.path.join(d, "in" + {"arff": ".arff", "svm": ".libsvm", "afm": ".fm"}[j["Fmt"]])
    with open(src, "w", newline="") as f:
        f.write(j["Text"])
    names = [w["Target"] for w in j["Writes"]] or ["0"]
    out = os.path.join(d, "out")
    argv = [exe, "-data", src, "-out", out]
    black, anon, svm = [], "", ""
    x = r.random()
    if x < 0.3:
        anon = r.choice(names)
        argv += ["-anontarget", anon]
    elif x < 0.5 and j["Writes"] or x < 0.4 and j["Fmt"] == "svm":
        svm = r.choice(names)
        argv += ["-libsvmtarget", svm]
    if r.random() < 0.3:
        black = [b for b in r.sample(names, min(len(names), r.randrange(1, 3)))] + ["not there"]
        bl = os.path.join(d, "black")
        with open(bl, "w") as f:
            for b in black:
                f.write((('"%s"' % b.replace('"', '""')) if '"' in b or "\t" in b else b) + "\n")
        argv += ["-blacklist", bl]
    rc, text, to = c.run(argv, timeout=60, cwd=d)
    ev = [dict(op="file", fmt=j["Fmt"], text=j["Text"]),
          dict(op="toafm", ok=rc == 0 and not to, black=black, anon=anon, svm=svm, text=read(out) or "")]
    return finish(dict(id="toafm-%d" % i, ev=ev, args=argv[1:], output=text[-800:] if rc else ""))
