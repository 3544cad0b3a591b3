"""Common machinery of the checks: build from /repo, record traces, run TLC, report."""
import copy, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", BUILD + "/classes"])
CLOUD = "github.com/ryanbressler/CloudForest"
GUARD = "verif"


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated' (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOROOT",):
            del e[k]
    e.update(GO111MODULE="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="",
             GOPATH=BUILD + "/gopath", GOCACHE=BUILD + "/gocache", HOME=e.get("HOME", "/root"))
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    # unseeded math/rand behaves as Seed(1), and rand.Seed works: runs are reproducible
    e["GODEBUG"] = "randautoseed=0,randseednop=0"
    return e


def prepare():
    src = BUILD + "/gopath/src/github.com/ryanbressler"
    os.makedirs(src, exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    os.makedirs(BUILD + "/classes", exist_ok=True)
    for link, dst in ((src + "/CloudForest", REPO), (BUILD + "/gopath/src/vdrv", VERIF + "/drivers")):
        if not (os.path.islink(link) and os.readlink(link) == dst):
            if os.path.islink(link):
                os.unlink(link)
            os.symlink(dst, link)
    java = glob.glob(VERIF + "/java/*.java")
    out = BUILD + "/classes/Rat.class"
    if not os.path.exists(out) or os.path.getmtime(out) < max(os.path.getmtime(j) for j in java):
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", BUILD + "/classes"] + java,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stderr)


def go_build(pkg, name, race=False, tags=None):
    out = BUILD + "/bin/" + name + ("_race" if race else "")
    cmd = ["go", "build", "-o", out]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    r = subprocess.run(cmd + [pkg], cwd=BUILD + "/gopath/src/" + CLOUD, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("go build %s failed:\n%s%s" % (pkg, r.stdout, r.stderr))
    return out


def rat(x):
    """a python float or int as the exact rational string used in traces"""
    if isinstance(x, int):
        return str(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = float(x).as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


class Decided(Exception):
    """a violation that makes the rest of the check pointless"""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid + "-" + str(os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.negatives = 0
        self.samples = []
        self.coverage = {}
        self.violations = []      # (key, replay path)
        self.known = []
        self.assumptions = []
        self.models = []
        self.findings = self.load_findings()
        prepare()

    def load_findings(self):
        out = []
        p = VERIF + "/KNOWN_FINDINGS.txt"
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    # ---- building and running the code under test -------------------------------
    def driver(self, name, race=False):
        return go_build("vdrv/" + name, "drv_" + name, race)

    def cmd(self, name, race=False, tags=None):  # self is not used
        sub = {"nfold": "utils/nfold", "toafm": "utils/toafm"}.get(name, name)
        return go_build(CLOUD + "/" + sub, name + ("_" + tags if tags else ""), race, tags)

    def run(self, argv, timeout=300, env=None, cwd=None, stdin=None):
        """run a command of the code under test; returns (rc, stdout+stderr, timed_out)"""
        e = goenv()
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        if env:
            e.update(env)
        p = subprocess.Popen(argv, env=e, cwd=cwd or self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf-8", "replace"), False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return -9, out.decode("utf-8", "replace"), True

    def drive(self, name, args=(), out=None, race=False, timeout=None, env=None):
        """run a trace-recording driver; its output file is NDJSON, one trace per line"""
        exe = self.driver(name, race)
        timeout = timeout or (3000 if self.thorough else 240)
        out = out or os.path.join(self.work, name + ".ndjson")
        rc, text, to = self.run([exe, "-seed", str(self.seed), "-tier", self.tier, "-out", out] + [str(a) for a in args],
                                timeout=timeout, env=env)
        if rc != 0:
            # a fatal error of the library (log.Fatal, concurrent map access, endless loop) takes the driver down
            if "vdrv: " in text:
                raise CheckError("driver %s failed rc=%s\n%s" % (name, rc, text[-4000:]))
            self.violation("%s-died" % name, dict(why=["the code under test %s" % (
                "did not finish within %ds" % timeout if to else "ended the process (status %s)" % rc)],
                output=(text[:3000] + "\n...\n" + text[-3000:]) if len(text) > 6000 else text))
            raise Decided()
        return self.read(out)

    def read(self, path):
        out = []
        for l in open(path) if os.path.exists(path) else []:
            try:
                out.append(json.loads(l))
            except ValueError:
                break    # the last line of a driver that was ended
        return out

    # ---- TLC ---------------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=8, timeout=800, env=None, args=(), heap="6g"):
        cfg = cfg or module + ".cfg"
        meta = os.path.join(self.work, "meta-%s-%d" % (module, random.randrange(10**9)))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, env=e, cwd=self.work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        return dict(rc=p.returncode, out=out, generated=gen, distinct=dist, ok=ok)

    def model(self, module, cfg=None, min_states=2, actions=(), timeout=800, env=None, workers=8, args=()):
        """exhaustive check of the specification itself; must succeed, and must not be vacuous"""
        t = time.time()
        r = self.tlc(module, cfg, timeout=timeout, env=env, workers=workers, args=["-coverage", "1"] + list(args))
        if not r["ok"]:
            raise CheckError("specification %s does not satisfy its properties:\n%s" % (module, r["out"][max(0, r["out"].find("Error:")):][:5000]))
        if r["distinct"] < min_states:
            raise CheckError("specification %s explored only %d states" % (module, r["distinct"]))
        cov = {}
        for name, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", r["out"], re.M):
            cov[name] = max(cov.get(name, 0), int(g))
        for a in actions:
            if cov.get(a, 0) == 0:
                raise CheckError("action %s of %s was never taken: vacuous" % (a, module))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, config=cfg or module + ".cfg", distinct_states=r["distinct"],
                                states_generated=r["generated"], actions={a: cov[a] for a in cov if cov[a]},
                                wall_s=round(time.time() - t, 1)))
        return r

    def model_fails(self, module, cfg, name, timeout=800, env=None):
        """a deliberately wrong variant of the specification must break the named property: the property can fail"""
        r = self.tlc(module, cfg, timeout=timeout, env=env)
        if r["ok"] or not re.search(r"(Invariant|property) %s( is|  *was)? violated|%s is violated" % (name, name), r["out"]):
            raise CheckError("%s with %s should violate %s:\n%s" % (module, cfg, name, r["out"][-3000:]))
        self.models.append(dict(module=module, config=cfg, expected_violation=name, distinct_states=r["distinct"]))

    def generate(self, module, cfg=None, env=None, timeout=600):
        """run a generator specification: TLC enumerates inputs/behaviours and writes them as NDJSON"""
        out = os.path.join(self.work, module + "-gen.ndjson")
        e = dict(env or {})
        e["OUT"] = out
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
        if not r["ok"] or not os.path.exists(out):
            raise CheckError("generator %s failed:\n%s" % (module, r["out"][-4000:]))
        self.models.append(dict(module=module, kind="generator"))
        return out

    def _tlc_traces(self, module, traces, cfg, timeout, env):
        path = os.path.join(self.work, "tr-%s-%d.ndjson" % (module, random.randrange(10**9)))
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        e = dict(env or {})
        e["TRACES"] = path
        r = self.tlc(module, cfg, env=e, timeout=timeout)
        os.unlink(path)
        # several workers print: two messages may share a line
        acc = set(re.findall(r'<<"ACC", "([^"]*)">>', r["out"]))
        rej = {}
        for i, pos, why in re.findall(r'<<"REJ", "([^"]*)", (\d+), "([^"]*)">>', r["out"]):
            rej.setdefault(i, set()).add("event %s: %s" % (pos, why))
        return r, acc, rej

    def validate(self, module, traces, cfg=None, negatives=(), timeout=800, env=None, chunk=4000, sample=2):
        """trace validation.  traces: list of {"id":..., "ev":[...], ...}.  negatives: corrupted traces, which the
        specification must reject (they show the binding is not vacuous)."""
        if not traces:
            if self.violations:
                return 0
            raise CheckError("no traces recorded for " + module)
        alltr = list(traces) + list(negatives)
        ids = [t["id"] for t in alltr]
        if len(set(ids)) != len(ids):
            raise CheckError("duplicate trace ids")
        acc, rej, broken = set(), {}, {}
        # chunks bounded by number and size
        chunks, cur, size = [], [], 0
        for t in alltr:
            n = len(json.dumps(t))
            if cur and (len(cur) >= chunk or size + n > 24_000_000):
                chunks.append(cur)
                cur, size = [], 0
            cur.append(t)
            size += n
        chunks.append(cur)
        todo = chunks
        while todo:
            c = todo.pop()
            r, a, j = self._tlc_traces(module, c, cfg, timeout, env)
            acc |= a
            for k, v in j.items():
                rej.setdefault(k, set()).update(v)
            if not r["ok"]:
                if "OutOfMemoryError" in r["out"]:
                    raise CheckError("TLC out of memory")
                if len(c) > 1:
                    # an evaluation error hides the other traces of this chunk: isolate it
                    rest = [t for t in c if t["id"] not in a]
                    h = max(1, len(rest) // 2)
                    todo += [x for x in (rest[:h], rest[h:]) if x]
                    if len(rest) == 0:
                        raise CheckError("TLC failed: " + r["out"][-3000:])
                else:
                    if "Parse Error" in r["out"] or "Semantic error" in r["out"] or "***Parse" in r["out"]:
                        raise CheckError("specification does not parse: " + r["out"][-3000:])
                    broken[c[0]["id"]] = r["out"][-3000:]
            self.states += r["distinct"]
            self.transitions += r["generated"]
        nbad = 0
        for t in traces:
            if t["id"] in acc:
                continue
            nbad += 1
            why = sorted(rej.get(t["id"], [])) or ["no action of the specification explains the recorded step"]
            if t["id"] in broken:
                why = ["recorded values are outside the specification's domain: " + broken[t["id"]][-600:]]
            self.violation(t["id"], dict(module=module, why=why[:12], trace=t), t.get("key"))
        if nbad == 0 and not self.violations:
            # of each kind of corruption at least one must be rejected (a single one may happen to be a behaviour)
            kinds = {}
            for t in negatives:
                kinds.setdefault(t.get("neg", t["id"]), []).append(t)
            for t in [ts[0] for ts in kinds.values() if all(x["id"] in acc for x in ts)]:
                raise CheckError("negative control accepted by %s: %s\n%s" % (module, t["id"], json.dumps(t)[:3000]))
        self.negatives += len([t for t in negatives if t["id"] not in acc])
        self.validated += len(traces)
        for t in traces[:: max(1, len(traces) // sample)][:sample]:
            s = json.dumps(t)
            self.samples.append(dict(module=module, trace=t if len(s) < 3000 else s[:3000] + "..."))
        return nbad

    # ---- reporting ----------------------------------------------------------------
    def violation(self, ident, detail, key=None):
        for k, desc in self.findings:
            if key == k:
                if (k, desc) not in self.known:
                    self.known.append((k, desc))
                return
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", ident)[:80]
        p = os.path.join(d, name + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, id=ident, seed=self.seed, tier=self.tier, **detail), f, indent=1)
        self.violations.append((ident, p))
        if len(self.violations) <= 5:
            log("REJECTED %s: %s" % (ident, json.dumps(detail.get("why", detail))[:1500]))

    def finish(self, level="model_checking", extra=None):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, negative_controls_rejected=self.negatives,
                   models=self.models, samples=self.samples[:6] or ["none"])
        cov.update(self.coverage)
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, d in self.known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, d, k))
        for ident, p in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s: %d traces of the implementation validated, %d states, %d violation(s), %.1fs" % (
            self.pid, self.tier, self.validated, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def corrupt(traces, fn, tag, n=3):
    """negative controls: fn(trace copy) changes one recorded fact (returns False if it cannot)"""
    out = []
    for t in traces:
        c = copy.deepcopy(t)
        try:
            if fn(c) is False:
                continue
        except (KeyError, IndexError, StopIteration, TypeError, ValueError, ArithmeticError):
            continue   # not a trace this corruption applies to
        c["id"], c["neg"] = "neg-%s-%s" % (tag, t["id"]), tag
        out.append(c)
        if len(out) >= n:
            break
    return out
