"""Runs the generate -> replay -> validate pipeline and reports.  See DESIGN.md."""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(BUILD, "classes")
TARGET = os.path.join(BUILD, "target")
TOOLCHAIN = "1.85.0"
WORKERS = str(os.cpu_count() or 4)


class ToolError(Exception):
    pass


def log(msg):
    print(msg, flush=True)


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=timeout, env=e, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200])) from x


def build_java():
    src = sorted(glob.glob(os.path.join(ROOT, "java", "verif", "*.java")))
    stamp = os.path.join(CLASSES, ".stamp")
    h = hashlib.sha1(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = sh(["javac", "-cp", JARS, "-d", CLASSES] + src, 300)
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)
    open(stamp, "w").write(h)


def cargo_env():
    return {"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
            "RUSTC_WRAPPER": "", "RUSTFLAGS": ""}


def build_harness(crate="harness", binary="cavh"):
    """Builds the harness against /repo's current working tree; returns the binary."""
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", TARGET],
           1500, env=cargo_env(), cwd=os.path.join(ROOT, crate))
    if r.returncode:
        raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "release", binary)


class Tlc:
    """One TLC run."""

    def __init__(self, work, module, constants=None, spec="Spec", invariants=(), properties=(),
                 postcondition=None, env=None, args=(), timeout=800, workers=WORKERS, constraint=None,
                 view=None, heap=None, name=None):
        self.module = module
        name = name or module
        cfg = os.path.join(work, name + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if constants:
                f.write("CONSTANTS\n")
                for k, v in constants.items():
                    f.write("  %s = %s\n" % (k, v))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for p in properties:
                f.write("PROPERTY %s\n" % p)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if view:
                f.write("VIEW %s\n" % view)
            if postcondition:
                f.write("POSTCONDITION %s\n" % postcondition)
            f.write("CHECK_DEADLOCK FALSE\n")
        meta = os.path.join(work, "meta-" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m"] + (["-Xmx" + heap] if heap else []) + [
            "-cp", JARS + ":" + CLASSES,
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.FixOverrides",
            "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
            "-config", cfg] + list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        r = sh(cmd, timeout, env=env, cwd=work)
        self.wall = time.time() - t
        self.out = r.stdout
        self.rc = r.returncode
        with open(os.path.join(work, name + ".out"), "w") as f:
            f.write(self.out)
        shutil.rmtree(meta, ignore_errors=True)
        m = None
        for m in re.finditer(r"^([\d,]+) states generated, ([\d,]+) distinct states found", self.out, re.M):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0

    def printed(self, prefix):
        for line in self.out.splitlines():
            if line.startswith('"' + prefix):
                yield json.loads(json.loads(line)[len(prefix):])

    def ok(self):
        if self.rc != 0 or "Model checking completed. No error" not in self.out:
            keep = [l for l in self.out.splitlines()
                    if not l.startswith(('"CASE', '"REC', "Semantic", "Parsing", "Linting", "Computed"))]
            raise ToolError("TLC %s failed (exit %s):\n%s" % (self.module, self.rc, "\n".join(keep)[-6000:]))
        return self


def replay(binary, cases, trace, case_limit=20, mem_gb=8):
    """Runs the harness over the cases file.  A crash or a case that does not end is recorded as
    the result of that case, and the run continues with the next one."""
    ncases = sum(1 for _ in open(cases))
    if os.path.exists(trace):
        os.remove(trace)
    start = 0
    deaths = 0
    while start < ncases:
        cmd = ["bash", "-c", 'ulimit -v %d; exec "$@"' % (mem_gb << 20), "sh", binary, cases, trace, str(start)]
        r = sh(cmd, 800, env={"CASE_LIMIT_S": str(case_limit)})
        done = sum(1 for _ in open(trace)) if os.path.exists(trace) else 0
        if r.returncode == 0:
            break
        if r.returncode == 3:
            raise ToolError("harness: " + r.stdout[-2000:])
        deaths += 1
        if deaths > 40:
            raise ToolError("harness died %d times; last output: %s" % (deaths, r.stdout[-500:]))
        why = "does not end" if r.returncode == 97 else "process died (exit %d)" % r.returncode
        case = open(cases).read().splitlines()[done]
        with open(trace, "a") as f:
            f.write(json.dumps({"n": done, "ok": 0, "why": why, "in": json.loads(case), "out": {}}) + "\n")
        start = done + 1
    done = sum(1 for _ in open(trace))
    if done != ncases:
        raise ToolError("harness recorded %d of %d cases" % (done, ncases))


def case_key(case):
    c = {k: v for k, v in case.items() if k != "id"}
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def known_findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


class Check:
    """One property's check: collects the pipelines' results, then reports."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.transitions = self.accepted = 0
        self.bad = []          # (pipeline, record, broken obligations)
        self.tags = collections.Counter()
        self.samples = []
        self.notes = {}
        self.distinct = set()
        self.exhaustive = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, *a, **k):
        """A model-checking run of the specification itself."""
        t = Tlc(self.work, *a, **k)
        t.ok()
        self.states += t.distinct
        self.transitions += t.generated
        return t

    def generate(self, module, label=None, **k):
        label = label or module
        t = self.tlc(module, name="gen-" + label, **k)
        cases = sorted(t.printed("CASE "), key=lambda c: (c.get("id", 0), json.dumps(c, sort_keys=True)))
        if not cases:
            raise ToolError("generator %s produced no cases" % module)
        self.notes.setdefault("generators", {})[label] = {
            "behaviours": len(cases), "distinct_states": t.distinct, "wall_s": round(t.wall, 1)}
        return cases

    def run(self, label, cases, binary, module, constants=None, chunks=None, env=None, **k):
        """Replays cases and validates the recording against a trace specification."""
        cf = os.path.join(self.work, label + ".cases.ndjson")
        tf = os.path.join(self.work, label + ".trace.ndjson")
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        t1 = time.time()
        replay(binary, cf, tf)
        t2 = time.time()
        e = {"TRACE": tf}
        e.update(env or {})
        cs = {"Chunks": chunks or max(1, min(len(cases), 256))}
        cs.update(constants or {})
        t = self.tlc(module, constants=cs, env=e, name="val-" + label, postcondition="TraceDone", **k)
        verdicts = {v["n"]: v for v in t.printed("REC ")}
        if len(verdicts) != len(cases):
            raise ToolError("trace spec judged %d of %d records" % (len(verdicts), len(cases)))
        for line in open(tf):
            rec = json.loads(line)
            v = verdicts[rec["n"]]
            for tag in v["tags"]:
                self.tags[tag] += 1
            self.distinct.add(case_key(rec["in"]))
            if v["bad"]:
                self.bad.append((label, rec, sorted(v["bad"])))
            else:
                self.accepted += 1
        if cases:
            self.samples.append({"pipeline": label, "case": cases[len(cases) // 2]})
        self.notes.setdefault("replays", {})[label] = {
            "cases": len(cases), "replay_s": round(t2 - t1, 1), "validate_s": round(t.wall, 1)}
        return t

    def finish(self, level="model_checking", assumptions=()):
        kf = [k for k in known_findings() if k["property"] == self.prop]
        new = []
        for label, rec, bad in self.bad:
            key = case_key(rec["in"])
            hit = [k for k in kf if k["case"] == key and set(bad) <= set(k["obligations"])]
            if hit:
                log("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["what"]))
            else:
                new.append((label, rec, bad))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.accepted,
               "evaluations": self.accepted + len(self.bad),
               "distinct_nontrivial": len(self.distinct),
               "rule": "distinct recorded calls (by input), each with its result judged by the trace specification",
               "exercised": dict(sorted(self.tags.items())),
               "samples": self.samples[:6], **self.notes}
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if new:
            rc = 1
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            for label, rec, bad in new[:20]:
                p = os.path.join(rd, "%s-%s-%d.json" % (self.prop, label, rec["n"]))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "pipeline": label, "obligations": bad,
                               "key": case_key(rec["in"]), "record": rec}, f)
                log("VIOLATION property=%s replay=%s" % (self.prop, p))
                log("  %s case %s: %s" % (label, rec["in"].get("id"), "; ".join(bad)))
            if len(new) > 20:
                log("  ... and %d more" % (len(new) - 20))
        log("%s %s: %d states, %d recorded calls accepted, %d rejected (%d known), %.1fs" % (
            self.prop, self.tier, self.states, self.accepted, len(self.bad), len(self.bad) - len(new),
            time.time() - self.t0))
        log("exercised: " + ", ".join("%s=%d" % kv for kv in sorted(self.tags.items())))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc
