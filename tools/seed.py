#!/usr/bin/env python3
"""Plant a bug: seed.py FILE.py...   (FILE.py defines ID, PROPERTY, EDITS, NEEDS, BREAKS and DEMO (Go main) or DEMO_SH)
Verifies in a scratch copy that the change builds, passes the stable tests and that the demonstration tells the two
apart, then writes seeded/<ID>/.  seed.py --check ID [PROP...] applies a planted bug to /repo, runs the checks of its
property (and PROP...), and undoes it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
SH = '''#!/bin/bash
# runs main.go (beside this file) against the CloudForest in the current directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src/github.com/ryanbressler" "$t/src/demo"
ln -s "$PWD" "$t/src/github.com/ryanbressler/CloudForest"
cp "$here/main.go" "$t/src/demo/"
export GO111MODULE=off GOPATH="$t" GOFLAGS= GOTOOLCHAIN=local GOCACHE="$t/cache" GODEBUG=randautoseed=0,randseednop=0
cd "$t" || exit 2
go build -o "$t/demo" demo || exit 2
%stimeout 240 "$t/demo"
'''
def build_cmd(c):
    return 'go build -o "$t/%s" github.com/ryanbressler/CloudForest/%s || exit 2\nexport %s="$t/%s" T="$t"\n' % (
        os.path.basename(c), c, os.path.basename(c).upper(), os.path.basename(c))

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)

def plant(path):
    g = {}
    exec(open(path).read(), g)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        sd = d + "/s"
        os.mkdir(sd)
        demo = g.get("DEMO_SH") or SH % "".join(build_cmd(c) for c in g.get("CMDS", []))
        open(sd + "/demo.sh", "w").write(demo)
        os.chmod(sd + "/demo.sh", 0o755)
        if g.get("DEMO"):
            open(sd + "/main.go", "w").write(g["DEMO"])
        a = sh(["bash", sd + "/demo.sh"], r, timeout=300)
        if a.returncode:
            return print(g["ID"], "demo fails on the unchanged tree", a.stdout[-2000:], a.stderr[-2000:])
        for e in g["EDITS"]:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 1
            s = open(r + "/" + f).read()
            parts = s.split(old)
            if len(parts) <= n:
                return print(g["ID"], "not found", f, old)
            open(r + "/" + f, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
        diff = sh(["git", "diff"], r).stdout
        # lines removed or changed must be the original repository's
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], r).stdout.split()[-1]
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---"):
                f = None
        env = dict(os.environ)
        b = sh("GO111MODULE=off GOPATH=%s/gp go version >/dev/null; . /opt/vp/env.sh; pwd" % d, r)
        # build and test in the copy through a GOPATH of its own
        gp = d + "/gp/src/github.com/ryanbressler"
        os.makedirs(gp)
        os.symlink(r, gp + "/CloudForest")
        env.update(GO111MODULE="off", GOPATH=d + "/gp", GOFLAGS="", GOTOOLCHAIN="local", GODEBUG="randautoseed=0")
        b = sh("cd %s/CloudForest && go build ./... && go test -json -vet=off -count=1 ./..." % gp, r, env=env)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set()
        for l in b.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                passed.add(e["Test"])
        missing = [s for s in stable if s.split("::")[-1].split(" ")[-1].split("/")[-1] not in passed and s not in passed]
        if "build failed" in b.stdout or missing:
            return print(g["ID"], "tests or build fail:", missing, b.stdout[-800:] if missing else "", b.stderr[-1500:])
        m = sh(["bash", sd + "/demo.sh"], r, timeout=300)
        if m.returncode == 0:
            return print(g["ID"], "demo passes with the change", m.stdout[-1000:])
        if m.returncode == 2:
            print(g["ID"], "note: demo exit 2:", m.stdout[-600:], m.stderr[-600:])
        out = V + "/seeded/" + g["ID"]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(sd, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        print(g["ID"], "planted; demo says:", (m.stdout + m.stderr).strip()[-200:])
        return True
    finally:
        shutil.rmtree(d)

def check(i, props=()):
    d = V + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    if sh(["git", "status", "--porcelain"], "/repo").stdout.strip():
        return print("/repo is not clean")
    a = sh(["git", "apply", d + "/patch.diff"], "/repo")
    if a.returncode:
        return print(i, "patch does not apply", a.stderr)
    try:
        for q in [p] + list(props):
            if not os.path.exists(V + "/checks/%s.py" % q):
                print(i, q, "no check")
                continue
            r = sh([V + "/bin/check", q], V)
            o = r.stdout + r.stderr
            print(i, q, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", [l[:200] for l in o.splitlines() if "REJECTED" in l or "ERROR" in l][:2])
    finally:
        sh(["git", "checkout", "--", "."], "/repo")

if sys.argv[1] == "--check":
    ids = sorted(os.listdir(V + "/seeded")) if sys.argv[2] == "all" else [sys.argv[2]]
    for i in ids:
        check(i, sys.argv[3:])
else:
    for f in sys.argv[1:]:
        plant(f)
