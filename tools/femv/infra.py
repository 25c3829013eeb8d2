"""Build the driver from /repo's working tree, run it on scenarios, and let TLC judge the traces."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
SPECS = os.path.join(VERIF, "specs")
WORK = os.path.join(VERIF, "work")
DRIVER = os.path.join(HARNESS, "target", "debug", "femdrv")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(VERIF, "java", "classes")


class CheckError(Exception):
    """the check itself could not give an answer"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("CARGO_HOME", "/root/.cargo") if os.path.isdir("/root/.cargo") else None
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


ALL_PARTS = ["alg", "cache", "geo", "import", "lin", "loc", "mesh", "num", "quad", "slepc"]
PARTS = list(ALL_PARTS)


def build_driver():
    """cargo decides by time stamps what is stale; decide by content instead"""
    os.makedirs(WORK, exist_ok=True)
    want = {
        "fem_2d": tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md")]),
        "femdrv": tree_hash([os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml")]),
    }
    stamp = os.path.join(HARNESS, "target", "content-stamp.json")
    have = {}
    try:
        have = json.load(open(stamp))
    except Exception:
        pass
    if os.access(DRIVER, os.X_OK) and {**want, "parts": have.get("parts")} == have:
        PARTS[:] = have["parts"]
        return
    env = cargo_env()
    if os.path.isdir(os.path.join(HARNESS, "target")):
        if os.path.exists(stamp):
            os.remove(stamp)
        for pkg in ("fem_2d", "femdrv"):
            if have.get(pkg) != want[pkg]:
                subprocess.run(["cargo", "clean", "--offline", "-p", pkg], cwd=HARNESS, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    build = ["cargo", "build", "--offline", "--locked"]
    r = subprocess.run(build, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    PARTS[:] = ALL_PARTS
    if r.returncode != 0:
        # leave out the parts of the driver that do not build against this tree
        alone = build + ["--no-default-features", "--features"]
        PARTS[:] = [x for x in ALL_PARTS if subprocess.run(alone + [x], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0]
        if not PARTS or subprocess.run(alone + [",".join(PARTS)], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            raise CheckError("the driver does not build:\n" + r.stdout[-4000:])
        log("the driver was built without", sorted(set(ALL_PARTS) - set(PARTS)))
    json.dump({**want, "parts": PARTS}, open(stamp, "w"))


def build_java():
    src = os.path.join(VERIF, "java", "src")
    if not os.path.isdir(src):
        return
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith(".java"))
    if not files:
        return
    stamp = os.path.join(CLASSES, "stamp")
    want = tree_hash([src])
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    shutil.rmtree(CLASSES, ignore_errors=True)
    os.makedirs(CLASSES)
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", CLASSES] + files, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("javac failed:\n" + r.stdout)
    open(stamp, "w").write(want)


class Run:
    """one check run: scratch directory, counters, violations"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=WORK)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []      # (key, text, replay payload)
        self.notes = []
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ------------------------------------------------------------ TLC

    def tlc(self, module, cfg, env=None, workers=8, extra=(), timeout=840, heap="6g", tag=""):
        e = dict(os.environ)
        e.update(env or {})
        md = self.path("md")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CLASSES + ":" + JARS, "tlc2.TLC",
               "-metadir", md, "-noGenerateSpecTE", "-config", cfg, "-workers", str(workers)] + list(extra) + [module + ".tla"]
        outp = self.path("tlc-%s.out" % (tag or module))
        with open(outp, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC ran out of time on " + module)
        shutil.rmtree(md, ignore_errors=True)
        txt = open(outp, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, txt, gen, dist

    def model(self, module, cfg, env=None, what="", **kw):
        """exhaustive check of a design model; anything but success is an error of the specification"""
        rc, txt, gen, dist = self.tlc(module, cfg, env, tag="mc", **kw)
        if rc != 0 or "No error has been found" not in txt:
            raise CheckError("model %s %s fails:\n%s" % (module, env, txt[-3000:]))
        self.states += dist
        self.transitions += max(gen - 1, 0)
        self.notes.append("%s %s: %d states, %d transitions" % (module, what, dist, gen))
        return txt

    # ------------------------------------------------------------ driver + trace check

    def drive(self, family, scenarios, env=None, timeout=400, cmd=None):
        """execute scenarios on the library; returns list of (scenario, session or None, note)"""
        out = []
        todo = list(scenarios)
        need = {"lin" if family == "eig" else family}
        for v in {str(s.get("views", "")) for s in todo} if family == "mesh" else ():
            if v != v.upper(): need.add("num")
            if "l" in v: need.add("loc")
        if need - set(PARTS):
            raise CheckError("the driver does not build: " + ", ".join(sorted(need - set(PARTS))))
        restarts = 0
        while todo:
            inp, outp = self.path("scn"), self.path("trace")
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            scratch = self.path("scratch")
            os.makedirs(scratch)
            e = dict(os.environ)
            e["FEMDRV_SCRATCH"] = scratch
            e.update(env or {})
            note = ""
            try:
                r = subprocess.run((cmd or [DRIVER]) + [family, inp, outp], env=e, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=timeout, cwd=scratch)
                if r.returncode != 0:
                    note = "process ended with status %s: %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:])
            except subprocess.TimeoutExpired:
                note = "no answer within %d s" % timeout
            shutil.rmtree(scratch, ignore_errors=True)
            lines = []
            if os.path.exists(outp):
                lines = [l for l in open(outp, errors="replace").read().split("\n")]
                lines = lines[:-1] if lines else []      # a torn last line has no newline
                os.remove(outp)
            os.remove(inp)
            for s, l in zip(todo, lines):
                out.append((s, l, ""))
            todo = todo[len(lines):]
            if todo:
                if not note:
                    raise CheckError("driver stopped early without an error")
                out.append((todo[0], None, note))
                todo = todo[1:]
                restarts += 1
                if restarts > 4:
                    for s in todo:
                        out.append((s, None, "skipped"))
                    break
        return out

    def conform(self, family, module, scenarios, env=None, views="", workers=8, tlc_env=None, timeout=400, chunk=30_000_000):
        """every session must be accepted by the trace specification"""
        if not scenarios:
            return
        for k, s in enumerate(scenarios):
            s.setdefault("sid", "s%05d" % k)
            if views:
                s.setdefault("views", views)
        if len({s["sid"] for s in scenarios}) != len(scenarios):
            raise CheckError("session ids are not unique")
        done = self.drive(family, scenarios, env=env, timeout=timeout)
        sessions = []
        for s, line, note in done:
            if line is None:
                if note != "skipped":
                    self.violate(s["sid"], "the library brought the process down: " + note, family, module, s, env)
            else:
                sessions.append((s, line))
        # split into chunks TLC can hold comfortably
        pos = 0
        while pos < len(sessions):
            size, end = 0, pos
            while end < len(sessions) and end - pos < 4000 and (end == pos or size + len(sessions[end][1]) < chunk):
                size += len(sessions[end][1]); end += 1
            self._judge(family, module, sessions[pos:end], env, tlc_env, workers)
            pos = end

    def _tlc_trace(self, module, sessions, tlc_env, workers):
        tr = self.path("t.ndjson")
        with open(tr, "w") as f:
            for _, line in sessions:
                f.write(line + "\n")
        e = {"TRACE": tr}
        e.update(tlc_env or {})
        rc, txt, gen, dist = self.tlc(module, module + ".cfg", e, workers=workers, tag="trace")
        os.remove(tr)
        if "semantic analysis failed" in txt or "Parsing or semantic" in txt:
            raise CheckError("specification does not parse:\n" + txt[-3000:])
        verdict = dict(re.findall(r'"VERDICT (\S+) (OK|BAD)"', txt))
        return rc, txt, gen, dist, verdict

    def _judge(self, family, module, sessions, env, tlc_env, workers):
        rc, txt, gen, dist, verdict = self._tlc_trace(module, sessions, tlc_env, workers)
        self.states += dist
        self.transitions += max(gen - len(sessions), 0)
        missing = [x for x in sessions if x[0]["sid"] not in verdict]
        errors = {}
        if missing:
            if "OutOfMemory" in txt or "StackOverflow" in txt and not re.search(r"Error: ", txt):
                raise CheckError("TLC ran out of memory:\n" + txt[-2000:])
            # the trace does not even have the shape the specification describes: find out which sessions
            suspects = 0
            rest = missing
            while rest and suspects < 3:
                head, rest = rest[0], rest[1:]
                rc1, txt1, _, _, v1 = self._tlc_trace(module, [head], tlc_env, 1)
                if head[0]["sid"] in v1:
                    verdict.update(v1)
                    txt += txt1
                else:
                    m = re.findall(r"Error: (.*(?:\n(?!Error|State|\d+\.|/\\).*){0,4})", txt1)
                    m = [x for x in m if not x.startswith("The behavior up to")]
                    errors[head[0]["sid"]] = (" | ".join(x[:400] for x in m) if m else txt1[-600:])[:1200]
                    suspects += 1
            if not errors and rest:
                raise CheckError("TLC gave no verdict for %d sessions:\n%s" % (len(missing), txt[-3000:]))
        why = {}
        for m in re.findall(r'"MISMATCH (\S+) (.*?)"\n', txt, re.S):
            why.setdefault(m[0], []).append(m[1][:700])
        for s, line in sessions:
            sid = s["sid"]
            if verdict.get(sid) == "OK":
                self.traces += 1
                if len(self.samples) < 2:
                    self.samples.append({"session": json.loads(json.dumps(s)), "verdict": "accepted", "log_bytes": len(line)})
            elif verdict.get(sid) == "BAD":
                self.traces += 1
                self.violate(sid, "; ".join(why.get(sid, ["mismatch"]))[:1500], family, module, s, env)
            elif sid in errors:
                self.violate(sid, "the specification cannot evaluate this execution: " + errors[sid], family, module, s, env)

    def violate(self, key, text, family="", module="", scenario=None, env=None):
        self.violations.append((key, text, {"family": family, "module": module, "scenario": scenario, "env": env}))
