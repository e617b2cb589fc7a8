"""Shared machinery of the checks: building /repo's sources, running drivers, running TLC, evidence.

Outcome discipline: a check exits 0 (held), 1 (violation, after the rejection was confirmed by a second
TLC run on the same recorded trace) or 2 (the machinery itself failed)."""
import os, sys, json, subprocess, tempfile, shutil, time, atexit, re, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4

class MachineryError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="sphdev.", dir="/tmp")
        atexit.register(_cleanup)
    return _scratch

def _cleanup():
    if _scratch and os.path.isdir(_scratch):
        sweep_ipc()
        shutil.rmtree(_scratch, ignore_errors=True)

def sweep_ipc():
    """Remove SysV objects the drivers announced (the part of the keys that names the store's directory, in scratch/ipc.*)."""
    if not _scratch:
        return
    bases = set()
    for fn in os.listdir(_scratch):
        if fn.startswith("ipc."):
            bases |= {int(w) for w in open(os.path.join(_scratch, fn)).read().split()}
    for line in open("/proc/sysvipc/shm").read().splitlines()[1:]:
        w = line.split()
        if int(w[0]) & 0xffffff in bases:
            subprocess.run(["ipcrm", "-m", w[1]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- build
LIB_RE = re.compile(r"libsphde_la_SOURCES\s*=\s*((?:.*\\\n)*.*)")
def lib_sources():
    t = open(os.path.join(REPO, "src/Makefile.am")).read()
    m = LIB_RE.search(t)
    names = [w for w in m.group(1).replace("\\\n", " ").split() if w.endswith((".c", ".cpp"))]
    return [os.path.join(REPO, "src", n) for n in names]

MODES = {
    # the library with a small B-tree fan-out, so that small histories exercise every restructuring
    "fan3": ["-g", "-O2", "-DSPHDE_VERIF", "-DSPHDE_VERIF_FANOUT=3"],
    "fan5": ["-g", "-O2", "-DSPHDE_VERIF", "-DSPHDE_VERIF_FANOUT=5"],
    # the flags the project itself builds with
    "plain": ["-g", "-O2"],
    # compile-time thread instrumentation only; harness/sched.c supplies the callbacks (a schedule controller)
    "sched": ["-g", "-O1", "-fsanitize=thread", "-DSPHDE_VERIF", "-DSPHDE_VERIF_SCHED", "-fno-omit-frame-pointer"],
    "schedfan3": ["-g", "-O1", "-fsanitize=thread", "-DSPHDE_VERIF", "-DSPHDE_VERIF_SCHED", "-DSPHDE_VERIF_FANOUT=3", "-fno-omit-frame-pointer"],
}
_built = {}
def build_lib(mode="plain"):
    """Compile every library source of /repo's working tree into an archive; returns its path."""
    if mode in _built:
        return _built[mode]
    d = os.path.join(scratch(), "obj-" + mode)
    os.makedirs(d, exist_ok=True)
    def one(src):
        o = os.path.join(d, os.path.basename(src) + ".o")
        cc = ["gcc"] if src.endswith(".c") else ["g++"]
        cmd = cc + MODES[mode] + ["-w", "-D__SASSIM__", "-pthread", "-I" + os.path.join(REPO, "src"), "-c", src, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, lib_sources()))
    a = os.path.join(d, "libv.a")
    subprocess.run(["ar", "rcs", a] + objs, check=True)
    _built[mode] = a
    return a

def build_driver(name, mode="plain", extra=(), flags=(), instrument_driver=False, instrumented=(), tail=()):
    """Compile harness/<name> with the library; returns the executable path."""
    lib = build_lib(mode)
    out = os.path.join(scratch(), name.replace(".", "_") + "-" + mode)
    src = os.path.join(HARN, name)
    fl = list(MODES["plain"]) if (mode == "plain" or not instrument_driver) else list(MODES[mode])
    if mode.startswith("sched") and not instrument_driver:
        fl += ["-DSPHDE_VERIF", "-DSPHDE_VERIF_SCHED"]
    objs = []
    ins = [os.path.join(HARN, e) for e in instrumented]   # compiled like the library (code in the library's headers)
    for s in [src] + [os.path.join(HARN, e) for e in extra] + ins + [os.path.join(REPO, e) for e in tail]:   # tail: linked after the library
        o = os.path.join(scratch(), os.path.basename(s) + "." + mode + ".o")
        cc = "g++" if s.endswith(".cpp") else "gcc"
        f = fl if s == src else list(MODES[mode]) if s in ins else list(MODES["plain"]) + (["-DSPHDE_VERIF", "-DSPHDE_VERIF_SCHED"] if mode.startswith("sched") else [])
        cmd = [cc] + f + list(flags) + ["-w", "-D__SASSIM__", "-pthread", "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-c", s, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        objs.append(o)
    cmd = ["g++", "-g", "-pthread"] + objs[:len(objs) - len(tail)] + [lib] + objs[len(objs) - len(tail):] + [lib, "-lrt", "-lpthread", "-lm", "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return out

# ---------------------------------------------------------------- TLC
class TLCResult:
    pass

def tlc(module, cfg, env=None, workers=4, timeout=600, mem="3g", extra=(), dfs=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Returns a TLCResult."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    jv = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss256m",
          "-Djava.io.tmpdir=" + md]
    if dfs:
        jv.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = jv + ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
                "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=md, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        rc = -1
    shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.wall, r.timed_out = rc, out, time.time() - t0, rc == -1
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m[-1]) if m else 0
    r.invariant = None
    m = re.search(r"(?:Invariant|Action property|Temporal property|property) (\S+) (?:is|was) violated", out)
    if m:
        r.invariant = m.group(1)
    if "Temporal properties were violated" in out:
        r.invariant = r.invariant or "temporal"
    if "Deadlock reached" in out:
        r.invariant = r.invariant or "deadlock"
    m = re.findall(r'<<"MAXL", (\d+), (\d+)>>', out)
    r.maxl, r.tracelen = (int(m[-1][0]), int(m[-1][1])) if m else (None, None)
    r.ok = rc == 0 and "No error has been found" in out
    return r

def model_check(module, cfg, workers=NCPU, timeout=800, mem="8g", extra=(), env=None, min_distinct=2):
    """Exhaustive check of a design model. A failure here is a failure of the machinery (the model does not depend
    on /repo), never a violation."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, extra=extra, env=env)
    if not r.ok:
        raise MachineryError("model %s/%s did not check: %s" % (module, cfg, r.out[-3000:]))
    if r.distinct < min_distinct:
        raise MachineryError("model %s/%s is vacuous (%d states)" % (module, cfg, r.distinct))
    return r

class Rejection(Exception):
    def __init__(self, prop, trace, index, events, why, tlc_out=""):
        self.prop, self.trace, self.index, self.events, self.why, self.tlc_out = prop, trace, index, events, why, tlc_out

def tlc_errors(out):
    """What TLC says went wrong, without the states."""
    keep = [x for x in out.splitlines() if re.search("rror|xception|verflow|Attempted|The (first|second) arg", x)]
    return "\n".join(keep[:20] + out.splitlines()[-8:])

def _trace_run(module, cfg, path, timeout, mem, dfs, env):
    e = {"TRACE": path}
    e.update(env or {})
    return tlc(module, cfg, env=e, workers=1, timeout=timeout, mem=mem, dfs=dfs, extra=["-deadlock"])

def validate_file(prop, module, cfg, path, timeout=400, mem="3g", dfs=False, env=None):
    """Validate one ndjson trace (several histories separated by reset events). Raises Rejection if the specification
    does not admit it (confirmed by a second run)."""
    r = _trace_run(module, cfg, path, timeout, mem, dfs, env)
    if r.ok and r.maxl is not None and r.maxl == r.tracelen + 1:
        return r
    def rejected(x):
        if x.timed_out:
            return None
        if x.invariant and x.invariant != "deadlock":
            return ("inv", x.invariant)
        if x.maxl is not None and x.maxl <= x.tracelen:
            return ("stuck", x.maxl)
        if "The error occurred when TLC was evaluating" in x.out and "StackOverflow" not in x.out and "OutOfMemory" not in x.out:
            m = re.findall(r"/\\ l = (\d+)", x.out)       # the event lies outside what the specification's operators are defined on
            if m:
                return ("stuck", int(m[-1]))
        return None
    a = rejected(r)
    if a is None:
        raise MachineryError("TLC failed on trace %s (%s): %s" % (path, module, tlc_errors(r.out)))
    r2 = _trace_run(module, cfg, path, timeout, mem, dfs, env)
    b = rejected(r2)
    if a != b:
        raise MachineryError("TLC gave two different answers on %s: %r %r" % (path, a, b))
    lines = open(path).read().splitlines()
    if a[0] == "inv":
        m = re.findall(r"/\\ l = (\d+)", r.out)
        idx = (int(m[-1]) - 1) if m else len(lines)
        why = "invariant %s violated" % a[1]
    else:
        idx = a[1]
        why = "event is not a step the specification allows"
    idx = max(1, min(idx, len(lines)))
    start = idx - 1
    while start > 0 and '"e":"reset"' not in lines[start].replace(" ", ""):
        start -= 1
    raise Rejection(prop, path, idx, lines[start:idx], why, r.out)

def validate_many(prop, module, cfg, paths, par=None, **kw):
    """Validate several trace files in parallel; the first rejection (in list order) is raised."""
    par = par or min(NCPU, 6)
    res, errs = [], []
    with ThreadPoolExecutor(par) as ex:
        futs = [ex.submit(validate_file, prop, module, cfg, p, **kw) for p in paths]
        for f in futs:
            try:
                res.append(f.result())
            except (Rejection, MachineryError) as x:
                errs.append(x)
    for x in errs:
        if isinstance(x, Rejection):
            raise x
    if errs:
        raise errs[0]
    return res

def gen_scripts(module, cfg, timeout=600, mem="4g", limit=None, seed=None):
    """Behaviours of the specification as scripts for a driver: every transition TLC explores, each with the shortest
    history that leads to it. Scripts that are a proper prefix of another are dropped; limit samples evenly."""
    r = tlc(module, cfg, workers=1, timeout=timeout, mem=mem)
    if not r.ok:
        raise MachineryError("generating scripts from %s/%s failed: %s" % (module, cfg, r.out[-3000:]))
    seen = set()
    for m in re.finditer(r'<<"SCRIPT", "(.*)">>', r.out):
        h = json.loads(m.group(1).replace('\\"', '"'))
        seen.add(tuple(op if isinstance(op, str) else " ".join(str(w) for w in op) for op in h))
    prefixes = set()
    for s in seen:
        for i in range(1, len(s)):
            prefixes.add(s[:i])
    out = sorted(s for s in seen if s not in prefixes)
    if not out:
        raise MachineryError("no scripts from %s/%s" % (module, cfg))
    total = len(out)
    if limit and total > limit:
        rng = __import__("random").Random(seed if seed is not None else SEED)
        out = sorted(rng.sample(out, limit))
    p = os.path.join(scratch(), "%s.scripts" % cfg.replace(".cfg", ""))
    with open(p, "w") as f:
        for s in out:
            f.write(";".join(s) + "\n")
    return p, len(out), r

# ---------------------------------------------------------------- drivers
def run_driver(exe, args, out, timeout=300, env=None, ok_codes=(0,)):
    e = dict(os.environ)
    e["VERIF_SCRATCH"] = scratch()
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run([exe] + [str(a) for a in args] + [out], env=e, cwd=scratch(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, start_new_session=True)
    except subprocess.TimeoutExpired:
        raise MachineryError("driver timed out: %s %s" % (exe, args))
    if p.returncode not in ok_codes:
        raise MachineryError("driver %s %s exited %d: %s" % (os.path.basename(exe), args, p.returncode, p.stdout[-2000:]))
    return p.stdout

def count_events(paths):
    n = h = 0
    kinds = {}
    for p in paths:
        for line in open(p):
            n += 1
            m = re.match(r'\{"e":"([^"]+)"', line)
            k = m.group(1) if m else "?"
            kinds[k] = kinds.get(k, 0) + 1
            if k == "reset":
                h += 1
    return n, h, kinds

# ---------------------------------------------------------------- check object
class Check:
    def __init__(self, prop, level="model_checking", tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.models, self.traces, self.notes, self.bounds = [], [], [], {}
        self.events = self.histories = 0
        self.kinds = {}
        self.samples = []
        self.known_seen = set()

    def model(self, module, cfg, **kw):
        r = model_check(module, cfg, **kw)
        self.models.append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})
        log("[%s] model %s %s: %d distinct states, depth %d, %.1fs" % (self.prop, module, cfg, r.distinct, r.depth, r.wall))
        return r

    def refutes(self, module, cfg, what, **kw):
        """A variant of a model, with a mistake the code once had: its invariants must catch it."""
        r = tlc(module, cfg, workers=NCPU, timeout=800, mem="8g", **kw)
        if not re.search(r"(is|was|were) violated", r.out):
            raise MachineryError("model %s/%s should violate %s: %s" % (module, cfg, what, r.out[-2000:]))
        self.models.append({"module": module, "cfg": cfg, "refuted": True, "distinct": r.distinct or 0, "generated": r.generated or 0, "depth": r.depth or 0, "wall_s": round(r.wall, 1)})
        log("[%s] model %s %s: refuted as it should be, %.1fs" % (self.prop, module, cfg, r.wall))

    def scripts(self, module, cfg, **kw):
        p, n, r = gen_scripts(module, cfg, **kw)
        self.models.append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1), "scripts_replayed": n})
        log("[%s] scripts %s %s: %d states, %d scripts, %.1fs" % (self.prop, module, cfg, r.distinct, n, r.wall))
        return p

    def drive(self, exe, jobs, timeout=300, env=None, par=None):
        """Run driver jobs (lists of arguments) in parallel; returns the recorded trace files."""
        outs = [os.path.join(scratch(), "t%d.ndjson" % (len(os.listdir(scratch())) * 1000 + i)) for i in range(len(jobs))]
        def one(k):
            run_driver(exe, jobs[k], outs[k], timeout=timeout, env=env)
            return outs[k]
        with ThreadPoolExecutor(par or NCPU) as ex:
            return list(ex.map(one, range(len(jobs))))

    def validate(self, module, cfg, paths, label="", need=(), **kw):
        n, h, kinds = count_events(paths)
        t = time.time()
        rs = validate_many(self.prop, module, cfg, paths, **kw)
        if os.environ.get("VERIF_CORRUPT"):
            self.corrupt(module, cfg, paths, label, int(os.environ["VERIF_CORRUPT"]), **kw)
        self.events += n
        self.histories += h
        for k, v in kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        self.traces.append({"spec": module, "label": label, "files": len(paths), "events": n, "histories": h,
                            "states": sum(r.distinct for r in rs), "kinds": kinds})
        for p in paths[:2]:
            self.samples.append([x.rstrip()[:300] for _, x in zip(range(8), open(p))])
        for k in need:
            if not kinds.get(k):
                raise MachineryError("trace %s never exercised event %r" % (label, k))
        log("[%s] traces %s %s: %d events, %d histories, %.1fs" % (self.prop, module, label, n, h, time.time() - t))

    def corrupt(self, module, cfg, paths, label, n, **kw):
        """Not part of any check (bin/corrupt): does the trace specification notice a recorded answer changed by one, an event
        left out, or one that happens twice?  Prints what went unnoticed, by kind of change."""
        rng = __import__("random").Random(SEED)
        tally = {}
        def one(i):
            r = __import__("random").Random(SEED * 1000 + i)
            lines = open(r.choice(paths)).read().splitlines()
            starts = [k for k, x in enumerate(lines) if x.startswith('{"e":"reset"')] or [0]
            a = r.randrange(len(starts))
            lo, hi = starts[a], starts[a + 1] if a + 1 < len(starts) else len(lines)
            hist = lines[lo:hi]
            if len(hist) < 3:
                return None
            k = r.randrange(1, len(hist))
            d = json.loads(hist[k])
            how = r.choice(["drop", "twice", "change", "change", "change", "change"])
            if how == "drop":
                new, tag = hist[:k] + hist[k + 1:], "drop " + d["e"]
            elif how == "twice":
                new, tag = hist[:k + 1] + hist[k:], "twice " + d["e"]
            else:
                fs = [(f, None) for f, v in d.items() if isinstance(v, int)] + [(f, j) for f, v in d.items() if isinstance(v, list) for j, w in enumerate(v) if isinstance(w, int)]
                if not fs:
                    return None
                f, j = r.choice(fs)
                delta = r.choice([-1, 1, -1, 1, 16])
                if j is None:
                    d[f] += delta
                else:
                    d[f][j] += delta
                new, tag = hist[:k] + [json.dumps(d, separators=(",", ":"))] + hist[k + 1:], "change %s.%s" % (d["e"], f)
            p = os.path.join(scratch(), "corrupt-%d-%d.ndjson" % (i, r.randrange(1 << 30)))
            open(p, "w").write("\n".join(new) + "\n")
            try:
                validate_file(self.prop, module, cfg, p, **kw)
                res = (tag, False, hist[k])
            except Rejection:
                res = (tag, True, None)
            except MachineryError as x:
                res = (tag + " (TLC error)", True, None)
            os.unlink(p)
            return res
        with ThreadPoolExecutor(NCPU) as ex:
            for res in ex.map(one, range(n)):
                if res:
                    t = tally.setdefault(res[0], [0, 0, None])
                    t[0] += 1
                    t[1] += res[1]
                    t[2] = t[2] or res[2]
        tot, ko = sum(t[0] for t in tally.values()), sum(t[1] for t in tally.values())
        log("[%s] corrupted histories, %s %s: %d of %d rejected; admitted:" % (self.prop, module, label, ko, tot))
        for k, t in sorted(tally.items()):
            if t[1] < t[0]:
                log("      %-24s %d of %d   e.g. %s" % (k, t[0] - t[1], t[0], (t[2] or "")[:200]))

    def known_findings(self):
        path = os.path.join(VERIF, "known-findings.txt")
        res = []
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3).strip()))
        return res

    def evidence(self, extra=None):
        d = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
             "coverage": {"states": sum(m["distinct"] for m in self.models) + sum(t["states"] for t in self.traces),
                          "transitions": sum(m["generated"] for m in self.models) + self.events,
                          "traces_validated_against_impl": self.histories,
                          "samples": self.samples[:6],
                          "models": self.models, "trace_validation": self.traces, "events": self.events,
                          "histories": self.histories, "event_kinds": self.kinds, "bounds": self.bounds,
                          "notes": self.notes},
             "wall_s": round(time.time() - self.t0, 2)}
        if extra:
            d["coverage"].update(extra)
        return d

def write_evidence(prop, d):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")

def fail(chk, rej):
    """Report a confirmed violation."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "%s-violation.txt" % chk.prop)
    with open(rp, "w") as f:
        f.write("property %s: %s\nlast event below is the one the specification rejects\n" % (chk.prop, rej.why))
        f.write("trace %s line %d\n" % (os.path.basename(rej.trace), rej.index))
        f.write("\n".join(rej.events[-400:]) + "\n")
    d = chk.evidence({"violation": {"why": rej.why, "event": rej.events[-1][:600] if rej.events else "", "replay": rp}})
    write_evidence(chk.prop, d)
    log("[%s] %s" % (chk.prop, rej.why))
    for e in rej.events[-12:]:
        log("    " + e[:300])
    print("VIOLATION property=%s replay=%s" % (chk.prop, rp), flush=True)
    return 1

def main(prop, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    chk = Check(prop, level, tier)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        fn(chk)
        for key, what in chk.known_findings():
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        write_evidence(prop, chk.evidence())
        log("[%s] held: %d events in %d histories, %d models, %.1fs" % (prop, chk.events, chk.histories, len(chk.models), time.time() - chk.t0))
        return 0
    except Rejection as r:
        return fail(chk, r)
    except MachineryError as x:
        log("[%s] MACHINERY ERROR: %s" % (prop, x))
        return 2
