"""Runner: TLC on the specifications, the Go driver on the code, and the bookkeeping around them."""
import concurrent.futures, glob, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The machinery failed: neither a pass nor a violation."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", HOME=e.get("HOME", "/root"))
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build_java():
    """Compile the accelerators for the specification's operators; returns the class directory."""
    src = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
    out = os.path.join(BUILD, "ov-" + h)
    if os.path.isdir(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = sh(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + src)
    if r.returncode:
        raise Infra("javac: " + r.stdout)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp)
    return out


class TLCResult:
    pass


class Run:
    """One check run."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.bad, self.parts, self.assumptions = [], [], {}, []
        self.drv = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(16)
        self.n = 0

    # ---- background helpers
    def bg(self, f, *a, **k):
        return self.pool.submit(f, *a, **k)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- Go
    def driver(self, race=False):
        if race in self.drv:
            return self.drv[race]
        out = self.path("drv-race" if race else "drv")
        # go.mod / go.sum of the harness stay as committed: build from a modfile copy
        mod = self.path("h.mod")
        shutil.copy(os.path.join(ROOT, "harness", "go.mod"), mod)
        shutil.copy(os.path.join(ROOT, "harness", "go.sum"), self.path("h.sum"))
        cmd = ["go", "build", "-modfile=" + mod, "-o", out] + (["-race"] if race else []) + ["."]
        r = sh(cmd, cwd=os.path.join(ROOT, "harness"), env=goenv(), timeout=600)
        if r.returncode:
            raise Infra("go build: " + r.stdout[-3000:])
        self.drv[race] = out
        return out

    def drive(self, what, infile=None, race=False, args=(), timeout=600, env=None):
        """Run the driver; returns the trace file."""
        exe = self.driver(race)
        self.n += 1
        out = self.path("%s-%d.ndjson" % (what, self.n))
        cmd = [exe, what, "-out", out, "-seed", str(self.seed), "-tier", self.tier, "-dir", self.work]
        if infile:
            cmd += ["-in", infile]
        cmd += list(args)
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise Infra("driver %s: timeout" % what)
        self.last_stdout, self.last_stderr = r.stdout, r.stderr
        if r.returncode:
            raise Infra("driver %s: exit %d\n%s" % (what, r.returncode, r.stderr.decode(errors="replace")[-3000:]))
        return out

    # ---- TLC
    def tlc(self, module, cfg=None, trace=None, workers=8, ov=True, args=(), env=None, timeout=800, simulate=None, heap="3g", violated=False):
        self.n += 1
        meta = self.path("meta-%d" % self.n)
        cp = (build_java() + ":" if ov else "") + TLA
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss32m", "-cp", cp,
               "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta]
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
        cmd += list(args) + ["-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if trace:
            e["TRACE"] = trace
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC %s: timeout" % module)
        out = p.stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult()
        r.out, r.rc, r.secs = out, p.returncode, time.time() - t
        r.scn, r.bad, r.notes = [], [], []
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    raise Infra("TLC %s: unreadable line %s" % (module, line[:200]))
                tag, body = s[:s.index("@", 1) + 1], s[s.index("@", 1) + 1:]
                {"@SCN@": r.scn, "@BAD@": r.bad, "@NOTE@": r.notes}[tag].append(json.loads(body))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                r.generated = r.distinct = int(m[-1])
        if violated:
            # the model is one that must not hold
            if p.returncode not in (12, 13) or "violated" not in out:
                raise Infra("TLC %s %s: no violation found (exit %d)\n%s" % (module, cfg, p.returncode, out[-3000:]))
        elif p.returncode != 0:
            raise Infra("TLC %s: exit %d\n%s" % (module, p.returncode, out[-4000:]))
        return r

    def model(self, module, cfg=None, **kw):
        """Check a design model; an error there is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts["model " + (cfg or module)] = {"states": r.distinct, "generated": r.generated, "secs": round(r.secs, 1)}
        return r

    def generate(self, module, cfg=None, **kw):
        """Run a generator; returns its scenarios and a file holding them."""
        r = self.tlc(module, cfg, **kw)
        if not r.scn:
            raise Infra("generator %s made nothing" % module)
        self.states += r.distinct
        self.transitions += r.generated
        self.n += 1
        f = self.path("%s-%d.scn.json" % (cfg or module, self.n))
        json.dump(r.scn, open(f, "w"))
        self.parts["generator " + (cfg or module)] = {"scenarios": len(r.scn), "states": r.distinct, "secs": round(r.secs, 1)}
        return r.scn, f

    def judge(self, module, trace, cfg=None, expect=None, label=None, split=None, **kw):
        """Validate a recorded trace against its trace specification."""
        n = ev = 0
        with open(trace) as f:
            for line in f:
                n += 1
                if n in (1, 7):
                    self.samples.append({"trace": os.path.basename(trace), "line": n, "record": line[:600]})
        if n == 0:
            raise Infra("empty trace " + trace)
        if split and n > split:
            # records judged one by one: pieces of bounded size
            with open(trace) as f:
                k = 0
                while True:
                    part = list(itertools.islice(f, split))
                    if not part:
                        break
                    k += 1
                    q = "%s.%d" % (trace, k)
                    with open(q, "w") as g:
                        g.writelines(part)
                    self.judge(module, q, cfg, label="%s, piece %d" % (label or os.path.basename(trace), k), **kw)
                    os.remove(q)
            return None
        r = self.tlc(module, cfg, trace=trace, **kw)
        if expect is None:
            expect = n + 0
        if not r.bad and r.distinct < expect:
            raise Infra("%s: only %d states for %d recorded steps\n%s" % (module, r.distinct, expect, r.out[-1500:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += n
        self.parts["trace " + (label or os.path.basename(trace))] = {"records": n, "states": r.distinct, "secs": round(r.secs, 1),
                                                                       "disagreements": len(r.bad)}
        lines = None
        for b in r.bad:
            b = dict(b)
            if lines is None:
                lines = open(trace).read().splitlines()
            b["module"] = module
            i = b.get("i") or b.get("h")
            if isinstance(i, int) and 1 <= i <= len(lines) and len(lines[i - 1]) < 200000:
                b["record"] = lines[i - 1]
            self.bad.append(b)
        return r

    # ---- verdict
    def finish(self):
        known = load_known(self.prop)
        viol = []
        seen = set()
        for b in self.bad:
            k = match_known(known, b)
            if k is None:
                viol.append(b)
            elif k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:8], "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (self.seed, self.tier, self.prop),
                           "disagreements": viol[:50]}, f, indent=1)
            for b in viol[:10]:
                print("  disagreement:", b.get("why", ""), json.dumps({k: v for k, v in b.items() if k not in ("record", "ev", "why")})[:300])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s: held on everything explored: %d recorded executions validated, %d model states, %.1f s"
              % (self.prop, self.traces, self.states, time.time() - self.t0))
        return 0

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(known, b):
    """A listed finding is identified by the exact case key the trace specification reports and the reason."""
    for k in known:
        if k.get("case") is not None and b.get("case") == k["case"] and b.get("why") == k["why"]:
            return k
    return None
