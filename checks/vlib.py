"""Shared machinery of the checks: building the driver from /repo's working tree, running
TLC, replaying, evidence and violation reporting.

Exit status of a check: 0 held, 1 with a VIOLATION line, 2 the check itself failed."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="acornverif-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class Build:
    """A driver binary being built from /repo's current tree; str() waits for it."""
    def __init__(self, bin_name, timeout=800):
        self.name, self.timeout, self.t0, self.path = bin_name, timeout, time.time(), None
        env = dict(os.environ)
        env.setdefault("VERIF_TARGET", os.path.join(VERIF, "build", "target"))
        self.target = env["VERIF_TARGET"]
        self.out = tempfile.TemporaryFile("w+", dir=tmpdir())
        self.proc = subprocess.Popen([os.path.join(VERIF, "harness", "build.sh"), "--bin", bin_name],
                                     stdout=self.out, stderr=subprocess.STDOUT, env=env)

    def __str__(self):
        if self.path is None:
            try:
                rc = self.proc.wait(self.timeout)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                rc = "timeout"
            if rc != 0:
                self.out.seek(0)
                raise ToolError("driver build failed (%s):\n%s" % (rc, self.out.read()[-6000:]))
            log("built %s in %.1fs" % (self.name, time.time() - self.t0))
            self.path = os.path.join(self.target, "debug", self.name)
        return self.path


def build(bin_name):
    """Start building one driver binary; what needs it waits for it."""
    return Build(bin_name)


def log(*a):
    print("[check]", *a, flush=True)


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        self.generated = self.distinct = 0
        if m:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"^The number of states generated: ([\d,]+)", out, re.M)
        if m:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = self.generated
        self.violated = re.search(r"Invariant (\S+) is violated", out) or \
            re.search(r"(Action property \S+|Temporal properties) (is|were) violated", out)
        self.ok = (rc == 0)

    def said(self, tag):
        """Values printed with Say(tag, v)."""
        res = []
        pre = '<<"%s", "' % tag
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('">>'):
                res.append(json.loads(json.loads('"' + line[len(pre):-3] + '"')))
        return res


def tlc(module, cfg, workers=8, simulate=None, depth=100, timeout=600, heap="6g", env=None,
        seed=None, extra=(), must_pass=True):
    """Run TLC in a scratch copy of the specifications. simulate=N: N random walks."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmpdir())
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_CP, "tlc2.TLC", "-config", os.path.join(SPEC, cfg),
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth),
                "-seed", str(SEED if seed is None else seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    r = Tlc(p.stdout, p.returncode, time.time() - t0)
    log("TLC %s %s: rc=%d %d generated, %d distinct, %.1fs" %
        (module, cfg, r.rc, r.generated, r.distinct, r.wall))
    shutil.rmtree(meta, ignore_errors=True)
    if must_pass and r.rc != 0:
        raise ToolError("TLC failed on %s/%s (the model itself, not the code):\n%s" %
                        (module, cfg, tail(r.out)))
    return r


def tail(s, n=4000):
    return s[-n:]


def run_driver(binary, args, timeout=600, stdin=None, env=None, ok_codes=(0,)):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    try:
        p = subprocess.run([str(binary)] + [str(a) for a in args], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, input=stdin, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("driver timed out: %s" % args)
    if ok_codes is not None and p.returncode not in ok_codes:
        raise ToolError("driver failed rc=%d args=%s\n%s\n%s" %
                        (p.returncode, args, tail(p.stdout), tail(p.stderr)))
    return p


def write_lines(name, items):
    path = os.path.join(tmpdir(), name)
    with open(path, "w") as f:
        for it in items:
            f.write(json.dumps(it, separators=(",", ":")) + "\n")
    return path


def read_lines(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, data, key=None):
        """A disagreement between the code and the specification. key: stable identity of
        the failing input, matched against known findings."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, what)
            return
        self.violations.append((what, data))

    def finish(self):
        for key, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]), flush=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, int(time.time())))
            with open(path, "w") as f:
                json.dump([{"what": w, "data": x} for w, x in self.violations[:20]], f, indent=1)
            for w, x in self.violations[:5]:
                log("VIOLATED:", w, json.dumps(x)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            sys.exit(1)
        log("%s held: %d traces/behaviours checked against the code, %d model states, %.1fs" %
            (self.prop, self.traces, self.states, time.time() - self.t0))
        sys.exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except OSError:
        return {}
    return {k["key"]: k["what"] for k in data.get("known", []) if k["property"] == prop}


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except ToolError as e:
        print("[check] TOOL ERROR:", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
