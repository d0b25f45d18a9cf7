"""Shared machinery of the checks: builds drivers from /repo's working tree, runs TLC, writes evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INCS = ["-I" + os.path.join(VERIF, "harness", "common"), "-I" + os.path.join(VERIF, "stubs")] + \
       ["-I" + os.path.join(REPO, d) for d in ("SEUtils", "ModelFitting", "SEFramework", "SEImplementation", "SEMain")] + \
       ["-I/usr/include/python3.12"]
CXX = ["g++", "-std=c++17", "-O1", "-ffast-math", "-w", "-fno-strict-aliasing"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_regex", "-lboost_program_options", "-lpthread", "-ldl"]
FITSLIBS = ["-lCCfits", "-lcfitsio", "-lwcs"]
ALLLIBS = FITSLIBS + ["-lyaml-cpp", "-lfftw3", "-lfftw3f", "-lgsl", "-lgslcblas"]
JOBS = 8


class MachineryError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf8", "replace") + "\n[timeout]"


def _deps_ok(obj, dep):
    try:
        t = os.path.getmtime(obj)
        txt = open(dep).read().replace("\\\n", " ")
        names = txt.split(":", 1)[1].split()
        return all(os.path.getmtime(n) <= t for n in names)
    except (OSError, IndexError):
        return False


def compile_one(src, flags):
    key = hashlib.sha1((src + REPO + " ".join(flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + key + ".o")
    dep = obj + ".d"
    if os.path.exists(obj) and _deps_ok(obj, dep):
        return obj, None
    tmp = obj + ".tmp%d" % os.getpid()
    rc, out = sh(CXX + flags + ["-MMD", "-MF", dep, "-MT", "x", "-c", src, "-o", tmp] + INCS, timeout=600)
    if rc != 0:
        return None, "%s:\n%s" % (src, out[:4000])
    os.replace(tmp, obj)
    return obj, None


def expand(pats):
    """Globs relative to /repo; a pattern starting with '!' removes."""
    res = []
    for p in pats:
        if p.startswith("!"):
            bad = set(glob.glob(os.path.join(REPO, p[1:]), recursive=True))
            res = [r for r in res if r not in bad]
        else:
            l = sorted(glob.glob(os.path.join(REPO, p), recursive=True))
            res += [x for x in l if x not in res]
    return res


def build(name, driver_srcs, repo_srcs, flags=(), libs=(), optional=(), whole=False):
    """Compiles and links one driver. `optional` sources are dropped when they do not compile; `whole` keeps every object."""
    flags = list(flags)
    t0 = time.time()
    srcs = [os.path.join(VERIF, "harness", s) for s in driver_srcs] + expand(repo_srcs)
    opt = set(expand(optional))
    srcs += [o for o in opt if o not in srcs]
    objs, errs = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        for s, (o, e) in zip(srcs, ex.map(lambda s: compile_one(s, flags), srcs)):
            if o:
                objs.append(o)
            elif s not in opt:
                errs.append(e)
    if errs:
        raise MachineryError("compilation failed\n" + "\n".join(errs[:3]))
    exe = os.path.join(BUILD, name)
    # repository objects go through an archive so that only what the driver needs is linked
    nd = len(driver_srcs)
    lib = exe + ".a"
    if os.path.exists(lib):
        os.remove(lib)
    if objs[nd:]:
        rc, out = sh(["ar", "crs", lib] + objs[nd:])
        if rc:
            raise MachineryError(out)
    link = ["g++", "-rdynamic", "-o", exe] + objs[:nd] + (["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] if whole else [lib] if objs[nd:] else []) + list(libs) + LIBS
    rc, out = sh(link, timeout=300)
    if rc:
        # the code now needs sources it did not need before: offer everything that compiles
        have = set(srcs)
        rest = [s for s in expand(["SEUtils/src/lib/**/*.cpp", "ModelFitting/src/lib/**/*.cpp", "SEFramework/src/lib/**/*.cpp",
                                   "SEImplementation/src/lib/**/*.cpp", "SEMain/src/lib/**/*.cpp"]) if s not in have]
        with ThreadPoolExecutor(JOBS) as ex:
            more = [o for o, e in ex.map(lambda s: compile_one(s, flags), rest) if o]
        lib2 = exe + ".more.a"
        if os.path.exists(lib2):
            os.remove(lib2)
        sh(["ar", "crs", lib2] + more)
        rc, out2 = sh(["g++", "-rdynamic", "-o", exe] + objs[:nd] + ["-Wl,--start-group"] + ([lib] if objs[nd:] else []) + [lib2, "-Wl,--end-group"] + list(libs) + LIBS, timeout=300)
        if rc:
            raise MachineryError("link failed\n" + out[:3000] + out2[:3000])
    return exe


_tlc_n = [0]


def tlc(module, cfg, env=None, workers=1, extra=(), timeout=600, heap="2g"):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (rc, output)."""
    _tlc_n[0] += 1
    meta = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), _tlc_n[0]))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m2[-1].replace(",", "")), 0) if m2 else (0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "replays")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, n):
        return os.path.join(self.work, n)

    # --- the design: exhaustive model checking
    def model(self, module, cfg, workers=8, timeout=800, extra=("-deadlock",), expect_violation=None, heap="4g", min_states=1, cover=False):
        ex = list(extra)
        if cover:
            ex += ["-coverage", "1"]
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, extra=ex, heap=heap)
        g, d = tlc_stats(out)
        name = cfg
        if expect_violation:
            ok = ("is violated" in out or "violated" in out) and expect_violation in out
            self.cov.setdefault("negative_controls", []).append("%s: %s violated as expected" % (name, expect_violation) if ok else name + ": NOT violated")
            if not ok:
                raise MachineryError("negative control %s did not violate %s\n%s" % (cfg, expect_violation, out[-3000:]))
            return
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model %s/%s failed (rc %s)\n%s" % (module, cfg, rc, out[-5000:]))
        if d < min_states:
            raise MachineryError("model %s/%s is vacuous: %d states" % (module, cfg, d))
        if cover:
            never = re.findall(r"<(\w+) line [^>]*>: 0:0", out)
            if never:
                raise MachineryError("model %s/%s: actions never taken: %s" % (module, cfg, never))
        self.states += d
        self.transitions += g
        self.cov.setdefault("models", []).append({"module": module, "config": cfg, "distinct_states": d, "states_generated": g})

    # --- the binding: does TLC accept what the code did?
    def cases(self, ndjson, out=None, limit=None):
        """Groups the lines between Begin and End into one case per line: {"cfg": Begin, "ev": [...]}.
        Returns (path, [(cfg, events)])."""
        out = out or ndjson + ".cases"
        res, cur = [], None
        with open(ndjson) as f:
            for line in f:
                if not line.strip():
                    continue
                j = json.loads(line)
                if j.get("e") == "Begin":
                    cur = (j, [])
                    res.append(cur)
                elif cur is not None:
                    cur[1].append(j)
        if limit:
            res = res[:limit]
        with open(out, "w") as f:
            for cfg, ev in res:
                f.write(json.dumps({"cfg": cfg, "ev": ev}) + "\n")
        return out, res

    def trace(self, module, cfg, cases, timeout=800, heap="6g", workers=8, env=None):
        """Validates a file of cases (one initial state per case; a case whose next event the specification cannot
        take is a deadlock). Returns None or a dict describing the first rejected case."""
        e = {"TRACE": cases}
        if env:
            e.update(env)
        rc, out = tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        g, d = tlc_stats(out)
        if rc == 0 and "No error has been found" in out:
            self.states += d
            self.transitions += g
            return None
        kind = None
        if "Deadlock reached" in out:
            kind = "the next event is not a step of the specification"
        m = re.search(r"(?:Invariant|Action property|Temporal properties?|property) (\w+)? ?(?:is|was|were) violated", out)
        if m:
            kind = "violates %s" % m.group(1)
        if not kind and "The error occurred when TLC was evaluating the nested" in out:
            kind = "the event has values outside the domain of the specification"
        cs = [int(x) for x in re.findall(r"(?:/\\ )?\bc = (\d+)", out)]
        ls = [int(x) for x in re.findall(r"(?:/\\ )?\bl = (\d+)", out)]
        if kind and cs and ls:
            return {"case": cs[-1], "event": ls[-1], "kind": kind, "output": out}
        raise MachineryError("trace check %s/%s ended abnormally (rc %s)\n%s" % (module, cfg, rc, out[-5000:]))

    def validate(self, module, cfg, ndjson, what, rerun=None, env=None, timeout=800):
        """Groups, validates, and turns a confirmed rejection into a violation. Returns the number of accepted cases."""
        path, cs = self.cases(ndjson)
        for cfgj, evs in cs[:2]:
            self.samples.append("%s: case %s, first events %s" % (module, json.dumps(cfgj)[:300], json.dumps(evs[:6])[:500]))
        r = self.trace(module, cfg, path, env=env, timeout=timeout)
        if r is None:
            self.traces += len(cs)
            return len(cs)
        cfgj, evs = cs[r["case"] - 1]
        # confirm with the case alone
        single = self.path("rejected.cases")
        with open(single, "w") as f:
            f.write(json.dumps({"cfg": cfgj, "ev": evs}) + "\n")
        r2 = self.trace(module, cfg, single, env=env, timeout=timeout)
        if r2 is None:
            raise MachineryError("a rejected case was accepted alone")
        i = r2["event"]
        ev = evs[i - 1] if 0 < i <= len(evs) else evs[-1]
        text = "case %s\nevent %d: %s\nprevious events: %s\n\n%s" % (json.dumps(cfgj), i, json.dumps(ev), json.dumps(evs[max(0, i - 12):i - 1]), r2["output"][-6000:])
        self.violation("%s: %s: event %d %s (case %s)" % (what, r2["kind"], i, json.dumps(ev)[:400], json.dumps(cfgj)[:300]), [single, ndjson], text)
        return 0

    def run(self, exe, args, timeout=600, env=None):
        return sh([exe] + [str(a) for a in args], timeout=timeout, env=env)

    def drive(self, exe, args, out, timeout=600, hang_ok=True):
        """Runs a driver that writes `out`. A crash of the code under test becomes an event of the last case; a driver
        exit code of 97 (the scheduler saw a hang) has already logged one."""
        rc, txt = self.run(exe, list(args) + ["--out", out], timeout=timeout)
        if rc in (0, 97):
            return rc
        if rc == 2 or not os.path.exists(out):
            raise MachineryError("driver failed (rc %s)\n%s" % (rc, txt[-3000:]))
        rc2, txt2 = self.run(exe, list(args) + ["--out", out], timeout=timeout)
        if rc2 in (0, 97):
            return rc2
        self.violation("the code under test %s (driver %s %s)" % ("did not finish in %ds" % timeout if rc2 == -999 else "crashed (rc %s)" % rc2, os.path.basename(exe), " ".join(map(str, args))), [out], txt2[-3000:])
        return rc2

    def violation(self, what, replay_files=(), text="", key=None):
        os.makedirs(self.replays, exist_ok=True)
        n = len(self.violations)
        d = os.path.join(self.replays, "%s-%d" % (self.pid, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in replay_files:
            if os.path.exists(f):
                shutil.copy(f, d)
        open(os.path.join(d, "README.txt"), "w").write(what + "\n\n" + text + "\n")
        self.violations.append((what, d))

    def finish(self):
        cov = dict(self.cov)
        cov["states"] = self.states
        cov["transitions"] = self.transitions
        cov["traces_validated_against_impl"] = self.traces
        cov["samples"] = self.samples[:12] or ["(none)"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, d in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("  " + what.replace("\n", "\n  "))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("%s %s: %d states, %d traces, %d violations, %.1fs" % (self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        sys.exit(1 if self.violations else 0)


def findings(pid):
    """key -> description of the known findings of a property."""
    res = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


def read_lines(p):
    with open(p) as f:
        return f.read().splitlines()


def block_of(lines, idx, begin='"Begin"'):
    """The execution (from its Begin line) that line idx (0-based) belongs to."""
    s = idx
    while s > 0 and begin not in lines[s]:
        s -= 1
    e = s + 1
    while e < len(lines) and begin not in lines[e]:
        e += 1
    return s, e
