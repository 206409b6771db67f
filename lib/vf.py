"""Shared machinery of the checks: build, record, run TLC, report.

A check exits 0 (property held on everything explored), 1 (VIOLATION line), or
2 (the machinery failed; nothing is claimed either way).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, glob, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class MachineryError(Exception):
    pass


def build_dir():
    return os.path.join(VERIF, "build", "classes")


def build_java():
    """Compile the Num override (committed source) unless an up-to-date build exists."""
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "vnum", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    d = build_dir()
    stamp = os.path.join(d, "STAMP")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return d
    tmp = tempfile.mkdtemp(prefix="vnum_")
    try:
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + srcs, capture_output=True, text=True)
        if r.returncode != 0:
            raise MachineryError("javac failed:\n" + r.stdout + r.stderr)
        with open(os.path.join(tmp, "STAMP"), "w") as f:
            f.write(h)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(tmp, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def py_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=scratch,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch,
               PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"), VERIF_DIR=VERIF,
               PYTHONWARNINGS="ignore")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


class Stopped(Exception):
    """The code under test kept the recorder from going on; already reported."""


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = (int(x) for x in m[-1]) if m else (0, 0, 0)
        self.bad = []          # (record index, [clause, ...])
        for line in out.splitlines():
            m = re.match(r'^"BAD (\d+) (\{.*\})"$', line)
            if m:
                self.bad.append((int(m.group(1)), re.findall(r'\\"((?:[^"\\]|\\(?!"))*)\\"', m.group(2))))
        self.notes = re.findall(r'^"NOTE (.*)"$', out, re.M)
        self.finished = "Model checking completed" in out or "The number of states generated" in out \
            or "Finished in" in out
        self.violated = re.findall(r"Invariant (\S+) is violated", out) + \
            re.findall(r"(?:Temporal|Action) propert(?:y|ies) (.*?)(?:were|was|is)? violated", out)


def tlc(module, scratch, cfg=None, env=None, workers=8, timeout=840, args=(), heap="6g", libs=(), cont=True):
    """Run TLC on spec/<module>.tla; cfg is a file name in spec/ or cfg text."""
    cls = build_java()
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    if cfg is None:
        cfg = module + ".cfg"
    if "\n" in cfg:
        p = os.path.join(meta, module + ".cfg")
        with open(p, "w") as f:
            f.write(cfg)
        cfg = p
    else:
        cfg = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    mod = module if os.path.isabs(module) else os.path.join(SPEC, module + ".tla")
    lib = ":".join([SPEC] + list(libs))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vnum.Overrides",
           "-DTLA-Library=" + lib, "-cp", cls + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE",
           "-config", cfg] + (["-continue"] if cont else []) + list(args) + [mod]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    res = TLCResult(r.stdout + r.stderr, r.returncode, time.time() - t0)
    shutil.rmtree(meta, ignore_errors=True)
    return res


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work")
        os.makedirs(self.work, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + "_", dir=self.work)
        self.violations, self.known_hit = [], []
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra = [], {}
        self.assumptions = []
        self.findings = self._findings()

    thorough = property(lambda s: s.tier == "thorough")

    def _findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [f for f in json.load(open(p))["findings"] if f["property"] == self.prop]

    # -- running the real code -------------------------------------------------
    def record(self, script, out=None, args=(), stdin=None, timeout=800):
        """Run a harness script on the real code; it writes ndjson to `out`."""
        out = out or os.path.join(self.scratch, os.path.basename(script) + ".ndjson")
        env = py_env(self.scratch)
        env.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        try:
            r = subprocess.run([PY, os.path.join(VERIF, "harness", script), out] + [str(a) for a in args],
                               capture_output=True, text=True, env=env, timeout=timeout, cwd=self.scratch)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"{script} timed out")
        last = (r.stderr.strip().splitlines() or [""])[-1]
        err = re.match(r"(?:\w+\.)*(\w+)(?::|$)", last)
        if r.returncode == 1 and "Traceback (most recent call last)" in r.stderr and err and "/harness/rec_" in r.stderr \
                and err.group(1) not in ("MemoryError", "KeyboardInterrupt", "BrokenPipeError", "OSError", "FileNotFoundError", "PermissionError", "FileExistsError", "TimeoutError", "BrokenProcessPool"):
            # the histories are the same whatever the code is: it did not do what they rely on
            self.fail(f"{script}: could not go on: {last[:200]}", dict(error=r.stderr[-4000:]))
            raise Stopped()
        if r.returncode != 0:
            raise MachineryError(f"{script} failed ({r.returncode}):\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}")
        return out

    # -- trace validation --------------------------------------------------------
    def validate(self, module, trace, env=None, timeout=840, count=None, workers=8):
        """TLC evaluates every record of `trace` against spec/<module>.tla; every
        failing clause becomes a violation. Counts states and traces."""
        recs = [json.loads(l) for l in open(trace)]
        if not recs:
            raise MachineryError("empty trace " + trace)
        cfg = "INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceConforms\nCHECK_DEADLOCK FALSE\n"
        e = {"TRACE": trace, "VERIF_DIR": VERIF}
        e.update(env or {})
        res = tlc(module, self.scratch, cfg=cfg, env=e, timeout=timeout, workers=workers)
        ok = res.distinct == 2 * len(recs) and res.left == 0
        short = not ok or res.rc not in (0, 12) or "Error: TLC" in res.out
        lost = self._unreadable(res, recs) if short and not res.bad else None
        if res.bad and short:    # cut short, but what was evaluated stands
            self.extra["cut short"] = module
        elif lost:               # what came back is not of the kind the specification speaks of
            self.fail(lost[0], dict(module=module, record=recs[lost[1] - 1], error=res.out[-3000:]))
        elif not ok or res.rc not in (0, 12) or bool(res.violated) != bool(res.bad) or "Error: TLC" in res.out:
            raise MachineryError(f"TLC did not validate all of {trace} with {module} (rc {res.rc}, "
                                 f"{res.distinct} states for {len(recs)} records):\n" + res.out[-6000:])
        self.states += res.distinct
        self.transitions += res.generated - len(recs)
        self.traces += len(recs)
        for k, clauses in sorted(res.bad):
            for c in clauses:
                self.fail(c, dict(module=module, record=recs[k - 1], clauses=clauses))
        if short and not self.violations:
            raise MachineryError(f"TLC was cut short on {trace} with {module}:\n" + res.out[-6000:])
        return recs, res

    @staticmethod
    def _unreadable(res, recs):
        """The record TLC could not evaluate the specification on (not a lack of memory or time)."""
        if any(w in res.out for w in ("OutOfMemory", "StackOverflow", "Java heap", "GC overhead", "Parsing or semantic analysis failed")):
            return None
        i = res.out.find("Error: ")
        m = re.search(r"^(?:/\\ )?k = (\d+)$", res.out[i:], re.M) if i >= 0 else None
        if m and 1 <= int(m.group(1)) <= len(recs):
            return "what was returned does not have the form the specification gives it", int(m.group(1))
        return None

    # -- verdicts -------------------------------------------------------------
    def fail(self, what, data=None):
        """A failed clause. `what` starts with the clause key; known findings match
        on the key and on the scenario label of the record."""
        label = ""
        if isinstance(data, dict) and isinstance(data.get("record"), dict):
            label = str(data["record"].get("label", ""))
        for f in self.findings:
            if f.get("status") == "open" and re.fullmatch(f["clause"], what) and re.fullmatch(f.get("label", ".*"), label):
                if f["id"] not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(f)
                return
        self.violations.append((what, label, data))

    def finish(self, coverage=None, sample_from=None):
        for f in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:5] or ["none"])
        cov.update(self.extra)
        cov.update(coverage or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(VERIF, "work", "replay"), exist_ok=True)
            rp = os.path.join(VERIF, "work", "replay", f"{self.prop}_{self.seed}.json")
            with open(rp, "w") as f:
                json.dump([dict(what=w, label=l, data=d) for w, l, d in self.violations[:20]], f, indent=1, default=str)
            for w, l, _ in self.violations[:12]:
                print(f"  failed: {w}" + (f"   [{l}]" if l else ""))
            print(f"VIOLATION property={self.prop} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.prop} traces={self.traces} states={self.states} wall={ev['wall_s']}s")
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def main(checks):
    """Dispatch: check.py <ID>."""
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print("usage: check.py " + "|".join(sorted(checks)))
        return 2
    prop = sys.argv[1]
    c = None
    try:
        c = Check(prop)
        r = checks[prop](c)
        return c.finish(r if isinstance(r, dict) else None)
    except Stopped:
        return c.finish()
    except MachineryError as e:
        if c is not None and c.violations:
            print("MACHINERY (after a violation): " + str(e)[:2000])
            return c.finish()
        print("MACHINERY: " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if c is not None:
            shutil.rmtree(c.scratch, ignore_errors=True)
