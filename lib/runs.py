"""Tables, files and runs of the commands, and their outputs as traces."""
import json, math, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from vlib import rat

MISSING = ["NA", "nan", "?", "", "null"]


def num(s):
    """text of a number as the exact rational string of the double it denotes, None if it is none"""
    try:
        return rat(float(s))
    except ValueError:
        return None


class Col:
    def __init__(self, name, kind, text):
        self.name, self.kind, self.text = name, kind, list(text)

    def __len__(self):
        return len(self.text)

    def missing(self, i):
        t = self.text[i]
        if self.kind == "cat":
            return t.lower() in ("", "na", "nan", "?", "null")
        v = num(t)
        return v is None or v == "nan"

    def val(self, i):
        return "0" if self.missing(i) and self.kind == "num" else "NA" if self.missing(i) else \
            num(self.text[i]) if self.kind == "num" else self.text[i]

    def json(self):
        n = len(self.text)
        return dict(name=self.name, kind=self.kind, val=[self.val(i) for i in range(n)], miss=[self.missing(i) for i in range(n)])

    def known(self):
        return [i for i in range(len(self.text)) if not self.missing(i)]

    def take(self, rows):
        return Col(self.name, self.kind, [self.text[i] for i in rows])


class Table:
    def __init__(self, cols, labels=None):
        self.cols = cols
        self.n = len(cols[0])
        self.labels = labels or ["s%d" % i for i in range(self.n)]

    def json(self):
        return [c.json() for c in self.cols]

    def col(self, name):
        return [c for c in self.cols if c.name == name][0]

    def names(self):
        return [c.name for c in self.cols]

    def afm(self, path, transpose=False):
        rows = [["."] + self.labels] + [[c.name] + c.text for c in self.cols]
        if transpose:
            rows = [list(x) for x in zip(*rows)]
        with open(path, "w") as f:
            for r in rows:
                f.write("\t".join(r) + "\n")
        return path


def num_text(r, style):
    if style == 0:
        return str(r.randrange(0, 12))
    if style == 1:
        return str(r.randrange(-40, 40) / 4)
    if style == 2:
        return repr(round(r.uniform(-100, 100), 3))
    return repr(r.choice([1, -1]) * r.random() * 10 ** r.randrange(-4, 5))


def num_col(r, name, n, miss=0.0, style=None):
    st = r.randrange(4) if style is None else style
    return Col(name, "num", [r.choice(MISSING) if r.random() < miss else num_text(r, st) for _ in range(n)])


def cat_col(r, name, n, k, miss=0.0, labels=None):
    labels = labels or [r.choice(["c", "x y", "L-", "true", "0", "v="])[:4] + str(i) for i in range(k)]
    return Col(name, "cat", [r.choice(MISSING) if r.random() < miss else r.choice(labels) for _ in range(n)])


# ---- the saved forest ------------------------------------------------------------
def fields(line):
    """KEY=value,KEY="value",... taken apart; None if the line isn't of that form"""
    out, i = [], 0
    while i < len(line):
        m = re.compile(r'([A-Z]+)=(?:"([^"]*)"|([^",]*))(,|$)').match(line, i)
        if not m:
            return None
        out.append((m.group(1), m.group(2) if m.group(2) is not None else m.group(3)))
        i = m.end()
        if m.group(4) == "," and i == len(line):
            return None
    return out


def parse_sf(text):
    """events of a saved forest: header, tree (with its nodes in the form of Routing), garbled"""
    ev = []
    cur = None
    if text and not text.endswith("\n"):
        ev.append(dict(op="garbled", line=text.splitlines()[-1][:80]))

    def finish():
        if cur is None:
            return
        paths = {p: i + 1 for i, (p, _) in enumerate(cur["raw"])}
        if len(paths) != len(cur["raw"]) or (cur["raw"] and cur["raw"][0][0] != "*"):
            ev.append(dict(op="garbled", line="nodes of tree %s" % cur["no"]))
            return
        nodes = []
        for p, n in cur["raw"]:
            n["l"], n["r"], n["m"] = (paths.get(p + s, 0) for s in "LRM")
            nodes.append(n)
        for p in paths:
            if p != "*" and p[:-1] not in paths:
                ev.append(dict(op="garbled", line="node without a parent: %s" % p))
        ev.append(dict(op="tree", no=cur["no"], target=cur["target"], weight=cur["weight"], nodes=nodes))
    for line in text.splitlines():
        fs = fields(line)
        d = dict(fs or [])
        keys = [k for k, _ in fs or []]
        if not fs or len(d) != len(fs):
            ev.append(dict(op="garbled", line=line[:80]))
        elif keys[0] == "FOREST":
            finish()
            cur = None
            ev.append(dict(op="header", target=d.get("TARGET", ""), num=num(d.get("INTERCEPT", "0")) or "nan"))
        elif keys[0] == "TREE":
            finish()
            cur = dict(no=int(d["TREE"]) if d["TREE"].isdigit() else -1, target=d.get("TARGET", ""),
                       weight=num(d["WEIGHT"]) if "WEIGHT" in d else "none", raw=[])
        elif keys[0] == "NODE" and cur is not None and re.fullmatch(r"\*[LRM]*", d["NODE"]):
            n = dict(kind="leaf", feat="", value="0", left=[], pred=d.get("PRED", ""))
            if "SPLITTER" in d:
                n["feat"] = d["SPLITTER"]
                if d.get("SPLITTERTYPE") == "NUMERICAL":
                    n["kind"], n["value"] = "num", num(d.get("LVALUES", "x")) or "nan"
                else:
                    n["kind"], n["left"] = "cat", d.get("LVALUES", "").split(":") if d.get("LVALUES") else []
            cur["raw"].append((d["NODE"], n))
        else:
            ev.append(dict(op="garbled", line=line[:80]))
    finish()
    return ev


def to_num(nodes):
    """predictions as rationals, for numeric votes"""
    for n in nodes:
        v = num(n["pred"])
        n["pred"] = n["pred"] if v is None else v
    return nodes


def read(path):
    try:
        return open(path).read()
    except OSError:
        return None


def rows(text):
    return [l.split("\t") for l in text.splitlines()]


def pool(fn, jobs, workers=6):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, jobs))
