"""Machinery shared by all checks: building the library and the drivers from
/repo's working tree, recording traces from the real library, and having TLC
judge them against the specification in /verif/spec."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class MachineError(Exception):
    """The check itself failed (no verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

FLAVORS = {
    # Optimized library; -O1 keeps the build short
    "base": ("-O1 -DNDEBUG", ""),
    # Ordinary mutexes instead of spin locks (the driver 'thr' intercepts them)
    "mutex": ("-O1 -DNDEBUG -DDRJIT_USE_STD_MUTEX", ""),
    "asan": ("-O1 -g -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address"),
    "tsan": ("-O1 -g -DNDEBUG -fsanitize=thread", "-fsanitize=thread"),
    "ubsan": ("-O1 -g -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,alignment,float-cast-overflow,float-divide-by-zero", "-fsanitize=undefined"),
}


def build_dir(flavor="base"):
    h = hashlib.sha1((REPO + VERIF + flavor).encode()).hexdigest()[:8]
    return os.path.join(os.environ.get("VF_BUILD", os.path.join(VERIF, "build")), flavor + "-" + h)


def build(drivers, flavor="base"):
    """Build libdrjit-core and the given drivers; returns the build directory."""
    d = build_dir(flavor)
    os.makedirs(d, exist_ok=True)
    cflags, ldflags = FLAVORS[flavor]
    t0 = time.time()
    env = dict(os.environ, CC="gcc", CXX="g++", CCACHE_DISABLE=os.environ.get("CCACHE_DISABLE", ""))
    if not env["CCACHE_DISABLE"]:
        env.pop("CCACHE_DISABLE")
    cmd = ["cmake", "-S", HARNESS, "-B", d, "-G", "Ninja", "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_C_FLAGS=" + cflags, "-DCMAKE_CXX_FLAGS=" + cflags,
           "-DCMAKE_SHARED_LINKER_FLAGS=" + ldflags, "-DCMAKE_EXE_LINKER_FLAGS=" + ldflags]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise MachineError("cmake failed:\n" + r.stdout[-4000:])
    r = subprocess.run(["ninja", "-C", d] + ["drv_" + x for x in drivers],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise MachineError("build failed:\n" + r.stdout[-6000:])
    log("[build] %s: %.1fs" % (flavor, time.time() - t0))
    return d


# ------------------------------------------------------------------ processes

def run_proc(cmd, env=None, timeout=120, cwd=None, stdin=None):
    """Run a command in its own process group; returns (rc | 'timeout', output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         stdin=stdin or subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode("utf-8", "replace")


class TLCResult:
    def __init__(self):
        self.ok = False
        self.error = ""
        self.generated = self.distinct = self.depth = 0
        self.rejects = []
        self.out = ""


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="2500m", scratch=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    rc, out = run_proc(cmd, env=e, timeout=timeout, cwd=md)
    shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.out = out
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m[-1])
    r.rejects = re.findall(r'<<"REJECT", (.*)>>', out)
    if rc == "timeout":
        raise MachineError("TLC timed out on %s (%s)" % (module, env))
    if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemoryError" in out or \
       "Could not find or load" in out or rc in (-9, 137):
        raise MachineError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    r.ok = rc == 0 and "No error has been found" in out
    if not r.ok:
        i = out.find("Error:")
        r.error = out[i:i + 1500] if i >= 0 else out[-1500:]
    return r


# ------------------------------------------------------------------ jobs

class Job:
    """Runs in parallel with other jobs.  run() returns a list of rejections
    (strings); an empty list means that everything was accepted."""
    name = "job"
    weight = 1

    def run(self, ctx):
        raise NotImplementedError

    repeat = 2  # how many re-runs may confirm a rejection


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.lock = threading.Lock()
        self.stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                      "events_validated": 0, "driver_runs": 0}
        self.samples = []
        self.kinds = {}
        self.bdir = {}

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.stats[k] = self.stats.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 4:
                self.samples.append(s)


def driver_env(d, home, extra=None):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL")}
    e.update(HOME=home, LD_LIBRARY_PATH=d, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0",
             UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="exitcode=66:report_bugs=1")
    e.update(extra or {})
    return e


class TraceJob(Job):
    """driver -> trace -> TLC trace validation"""

    def __init__(self, name, driver, args, module, cfg=None, flavor="base", env=None, files=None,
                 drv_timeout=50, tlc_timeout=600, tlc_env=None, pre=None, weight=1):
        self.name, self.driver, self.args, self.module, self.cfg = name, driver, [str(a) for a in args], module, cfg
        self.flavor, self.env, self.drv_timeout, self.tlc_timeout = flavor, env or {}, drv_timeout, tlc_timeout
        self.tlc_env, self.pre, self.weight = tlc_env or {}, pre, weight

    def run(self, ctx):
        w = tempfile.mkdtemp(prefix=re.sub(r"\W", "_", self.name) + "-", dir=ctx.scratch)
        self.dir = w
        home = os.path.join(w, "home")
        os.makedirs(home)
        trace = os.path.join(w, "trace.ndjson")
        d = ctx.bdir[self.flavor]
        args = list(self.args)
        if self.pre:
            args = [str(a) for a in self.pre(ctx, w, args)]
        cmd = [os.path.join(d, "drv_" + self.driver), trace] + args
        env = driver_env(d, home, self.env)
        rc, out = run_proc(cmd, env=env, timeout=self.drv_timeout, cwd=w)
        ctx.add(driver_runs=1)
        self.cmd = " ".join(cmd)
        with open(os.path.join(w, "driver.log"), "w") as f:
            f.write("%s\nrc=%s\n%s" % (self.cmd, rc, out))
        if rc == 3:
            raise MachineError("driver %s: LLVM backend unavailable\n%s" % (self.driver, out[-1000:]))
        if rc == 2:
            raise MachineError("driver %s failed: %s" % (self.driver, out[-1000:]))
        if rc == -9:
            raise MachineError("driver %s was killed" % self.driver)
        if rc != 0:
            # The library aborted, crashed or hung: close the trace with an
            # event that no specification admits.
            txt = open(trace, errors="replace").read() if os.path.exists(trace) else ""
            lines = []
            for ln in txt.split("\n"):
                try:
                    json.loads(ln)
                    lines.append(ln)
                except ValueError:
                    pass
            if not lines or '"crash"' not in lines[-1]:
                lines.append(json.dumps({"e": "hang" if rc == "timeout" else "crash", "rc": str(rc)}))
            with open(trace, "w") as f:
                f.write("\n".join(lines) + "\n")
        shutil.rmtree(home, ignore_errors=True)
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise MachineError("driver %s recorded nothing" % self.driver)
        r = tlc(self.module, self.cfg, env=dict(self.tlc_env, TRACE=trace), timeout=self.tlc_timeout, scratch=w)
        with open(os.path.join(w, "tlc.log"), "w") as f:
            f.write(r.out)
        ctx.add(states=r.distinct, transitions=max(r.generated - 1, 0), events_validated=n, traces_validated_against_impl=1)
        if len(ctx.samples) < 4:
            with open(trace) as f:
                ln = f.readline().strip()
                ctx.sample({"job": self.name, "first_event": ln[:400], "events": n})
        if r.ok and rc == 0:
            shutil.rmtree(w, ignore_errors=True)
            return []
        rej = r.rejects[:20] or [r.error[:1200]]
        if rc != 0:
            rej.append("driver ended with %s: %s" % (rc, out[-600:]))
        return rej


class BindJob(TraceJob):
    """Shows that the specification is bound to the recorded observations: a
    single observed value of an otherwise accepted trace is changed, and TLC
    has to reject the result.  Never yields a violation."""
    repeat = 0

    def __init__(self, *a, mutate, **kw):
        super().__init__(*a, **kw)
        self.mutate = mutate

    def run(self, ctx):
        w = tempfile.mkdtemp(prefix="bind-", dir=ctx.scratch)
        self.dir = w
        home = os.path.join(w, "home")
        os.makedirs(home)
        trace = os.path.join(w, "trace.ndjson")
        d = ctx.bdir[self.flavor]
        rc, out = run_proc([os.path.join(d, "drv_" + self.driver), trace] + self.args,
                           env=driver_env(d, home, self.env), timeout=self.drv_timeout, cwd=w)
        if rc != 0:
            return []  # reported by the other jobs
        ev = [json.loads(x) for x in open(trace)]
        if not self.mutate(ev):
            raise MachineError("%s: no event to corrupt" % self.name)
        with open(trace, "w") as f:
            f.write("\n".join(json.dumps(x) for x in ev) + "\n")
        r = tlc(self.module, self.cfg, env=dict(self.tlc_env, TRACE=trace), timeout=self.tlc_timeout, scratch=w)
        if r.ok:
            raise MachineError("%s: a corrupted trace was accepted" % self.name)
        ctx.add(corrupted_traces_rejected=1)
        shutil.rmtree(w, ignore_errors=True)
        return []


class ModelJob(Job):
    """Exhaustive (or simulated) check of a design specification"""
    repeat = 1

    def __init__(self, name, module, cfg=None, workers=1, timeout=800, extra=(), min_states=2):
        self.name, self.module, self.cfg, self.workers, self.timeout = name, module, cfg, workers, timeout
        self.extra, self.min_states = extra, min_states

    def run(self, ctx):
        w = tempfile.mkdtemp(prefix="model-", dir=ctx.scratch)
        self.dir = w
        r = tlc(self.module, self.cfg, workers=self.workers, timeout=self.timeout, extra=self.extra, scratch=w)
        with open(os.path.join(w, "tlc.log"), "w") as f:
            f.write(r.out)
        ctx.add(states=r.distinct, transitions=r.generated, design_states=r.distinct)
        if r.distinct < self.min_states:
            raise MachineError("model %s explored only %d states:\n%s" % (self.module, r.distinct, r.out[-1500:]))
        ctx.sample({"job": self.name, "design_model": self.cfg or self.module, "distinct_states": r.distinct})
        if not r.ok:
            # The specification is independent of the code under test
            raise MachineError("the design model %s/%s fails: %s" % (self.module, self.cfg, r.error))
        return []


class FuncJob(Job):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def run(self, ctx):
        w = tempfile.mkdtemp(prefix="fn-", dir=ctx.scratch)
        self.dir = w
        return self.fn(ctx, w)


# ------------------------------------------------------------------ findings

def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", ln.strip())
            if m:
                r.append(m.groups())
    return r


def execute(prop, tier, seed, level, drivers, jobs, assumptions=(), parallel=NCPU, extra_cov=None, flavors=("base",)):
    """Run the jobs of one check; prints the verdict; returns the exit code."""
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    ctx = Ctx(prop, tier, seed, scratch)
    violations, errors, findings = [], [], set()
    try:
        for f in flavors:
            ctx.bdir[f] = build(drivers, f)
        tb = time.time() - t0

        def known(x):
            return [f for f in known_findings() if f[0] == prop and re.search(f[1], x)]

        stop = []

        def attempt(j, first=True):
            t = time.time()
            try:
                if first and len(stop) >= 4:  # enough to report
                    return j, None, None, 0
                if not first and hasattr(j, "drv_timeout"):
                    j.drv_timeout = 150  # (a hang is only reported if it persists)
                return j, j.run(ctx), None, time.time() - t
            except MachineError as ex:
                return j, None, str(ex), time.time() - t

        failed = []
        with cf.ThreadPoolExecutor(parallel) as ex:
            for j, rej, err, dt in ex.map(attempt, jobs):
                if os.environ.get("VF_VERBOSE"):
                    log("[job] %-32s %.1fs %s" % (j.name, dt, "ERROR" if err else ("REJECTED" if rej else "ok")))
                if err:
                    failed.append((j, None, err))
                elif rej:
                    failed.append((j, rej, None))
                    if any(not known(x) for x in rej):
                        stop.append(j)
        # Confirm each rejection by running the job again
        for j, rej, err in failed[:6]:
            if violations and time.time() - t0 > 400:
                break
            ok = False
            for _ in range(j.repeat):
                _, rej2, err2, _ = attempt(j, False)
                if rej2:
                    rej, ok = rej2, True
                    break
                if err2:
                    err = err2
            if not ok:
                if rej is None:
                    if err2:
                        errors.append("%s: %s" % (j.name, err))
                else:
                    log("[note] %s: a rejection did not recur: %s" % (j.name, rej[0][:500]))
                continue
            new = []
            for x in rej:
                k = known(x)
                if k:
                    findings.add((k[0][1], k[0][2]))
                else:
                    new.append(x)
            if new:
                violations.append((j, new))
        for m, f in sorted(findings):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        rc = 0
        if violations:
            rc = 1
            rd = os.path.join(VERIF, "replay", prop)
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            for n, (j, rej) in enumerate(violations):
                dst = os.path.join(rd, str(n))
                try:
                    shutil.copytree(j.dir, dst, ignore_dangling_symlinks=True)
                except Exception:
                    os.makedirs(dst, exist_ok=True)
                with open(os.path.join(dst, "rejected.txt"), "w") as f:
                    f.write("job: %s\ncommand: %s\n\n%s\n" % (j.name, getattr(j, "cmd", ""), "\n".join(rej)))
                log("[violation] %s: %s" % (j.name, "\n   ".join(x[:700] for x in rej[:4])))
                print("VIOLATION property=%s replay=%s" % (prop, dst))
        elif errors:
            for e in errors:
                log("[error] " + e)
            rc = 2
        cov = dict(ctx.stats)
        if level == "exploration":
            cov["evaluations"] = ctx.stats["events_validated"]
        cov["samples"] = ctx.samples or [{"note": "no sample"}]
        cov["jobs"] = len(jobs)
        cov["build_s"] = round(tb, 1)
        if extra_cov:
            cov.update(extra_cov(ctx) if callable(extra_cov) else extra_cov)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("[done] %s %s: rc=%d %.1fs %s" % (prop, tier, rc, time.time() - t0, {k: v for k, v in ctx.stats.items()}))
        return rc
    except MachineError as ex:
        log("[error] %s" % ex)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
