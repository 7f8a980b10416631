"""Common machinery of the checks: build the library from /repo's working tree,
run recording drivers, let TLC judge the records against the specification."""
import glob, json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
OUTROOT = os.environ.get("VT_OUT", VERIF)      # scratch root, for experiments only
EVID = os.path.join(OUTROOT, "evidence")
NCPU = min(8, os.cpu_count() or 1)
LANES = 16
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", CC="gcc")
for v in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS"):
    ENV.pop(v, None)


class ToolError(Exception):
    """The machinery failed: no verdict."""


class Violation(Exception):
    def __init__(self, what, record):
        super().__init__(what)
        self.what, self.record = what, record


def sh(cmd, cwd=None, timeout=600, env=None, ok=True, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    if ok and p.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:]))
    return p


# --------------------------------------------------------------------------
# build
GEN = ["ntt%d_tables", "ntt_red%d_tables", "bitrev%d_table"]
SIZES = [16, 256, 512, 1024]


class Build:
    """A copy of /repo/src under build/<name>, compiled by the rules of its Makefile."""

    def __init__(self, name):
        self.dir = os.path.join(OUTROOT, "build", name)
        self.src = os.path.join(self.dir, "src")
        self.out = os.path.join(self.dir, "out")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.out)
        shutil.copytree(os.path.join(REPO, "src"), self.src, symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.a"))
        for n in SIZES:   # generated sources are generated anew
            for pat in GEN[:2]:
                for s in ("c", "h"):
                    f = os.path.join(self.src, (pat % n) + "." + s)
                    if os.path.exists(f):
                        os.unlink(f)
        self.gens = ["make_tables", "make_red_tables", "make_bitrev_table"]
        for g in self.gens:
            f = os.path.join(self.src, g)
            if os.path.exists(f):
                os.unlink(f)
        gen = [(p % n) + "." + s for n in SIZES for p in GEN for s in ("c", "h")]
        sh(["make", "-C", self.src, "-j1"] + self.gens + gen)

    def objects(self):
        """All modules that are not programs."""
        mods = []
        for f in sorted(glob.glob(self.src + "/*.c") + glob.glob(self.src + "/*.S")):
            b = os.path.basename(f)
            if b.startswith(("test_", "speed_", "kat_", "make_")):
                continue
            text = open(f, errors="replace").read()
            if b.endswith(".c") and re.search(r"^\s*(int|void)\s+main\s*\(", text, re.M):
                continue
            mods.append(os.path.splitext(b)[0])
        return mods

    def library(self, make=(), tag=""):
        """make: settings that override those of the Makefile"""
        mods = self.objects()
        objs = [m + ".o" for m in mods]
        cmd = ["make", "-C", self.src, "-j%d" % NCPU, *make]
        if make:
            for o in objs:
                p = os.path.join(self.src, o)
                if os.path.exists(p):
                    os.unlink(p)
        sh(cmd + objs)
        self.lib = os.path.join(self.out, "libntt%s.a" % tag)
        if os.path.exists(self.lib):
            os.unlink(self.lib)
        sh(["ar", "rcs", self.lib] + [os.path.join(self.src, o) for o in objs])
        return self.lib

    PRIMARY = {1: ["ntt", "ntt16", "ntt256", "ntt512", "ntt1024"],
               2: ["naive_ntt", "naive_ntt16", "naive_ntt256", "naive_ntt512", "naive_ntt1024"],
               3: ["ntt_red", "ntt_red16", "ntt_red256", "ntt_red512", "ntt_red1024"],
               4: ["ntt_asm", "ntt_red_asm16", "ntt_red_asm256", "ntt_red_asm512", "ntt_red_asm1024"],
               5: ["intervals", "red_bounds", "ntt_red_interval"],
               0: []}

    def driver(self, src, fam=0, flags=("-O2",), name=None, lib=None, link=()):
        name = name or "%s_%d" % (os.path.splitext(src)[0], fam)
        exe = os.path.join(self.out, name)
        prim = [os.path.join(self.src, m + ".o") for m in self.PRIMARY[fam]
                if os.path.exists(os.path.join(self.src, m + ".o"))]
        sh(["gcc", "-std=gnu11", "-D_GNU_SOURCE", "-DFAM=%d" % fam, *flags, "-w", "-I", self.src, "-I", HARNESS,
            "-o", exe, os.path.join(HARNESS, src)] + prim + [lib or self.lib, *link, "-lm", "-pthread"])
        return exe


# --------------------------------------------------------------------------
# drivers
class Records:
    """Records written by drivers, in one file."""

    def __init__(self, build, name="records"):
        self.b = build
        self.path = os.path.join(build.out, name + ".json")
        self.counts = {"calls": 0, "compressed": 0, "events": 0}
        self.jobs = []

    def add(self, exe, args, parts=NCPU, timeout=300, extra=()):
        """args: function part -> list of arguments after OUT"""
        for p in range(parts):
            out = os.path.join(self.b.out, "%s.%d.%d.json" % (os.path.basename(exe), len(self.jobs), p))
            self.jobs.append((exe, [out] + [str(a) for a in args(p)], out, timeout))

    def run(self, summary=False, serial=False):
        """summary: one record per driver that tells how it ended, instead of its own records
        (these too if a conversion changed a value: then the results decide)"""
        def one(job):
            exe, argv, out, timeout = job
            env = dict(ENV, HX_ALARM=str(timeout))
            try:
                p = subprocess.run([exe] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                                   timeout=timeout + 60, cwd=self.b.out)
                return job, p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                return job, "timeout", "", ""
        with ThreadPoolExecutor(1 if serial else NCPU) as ex:
            results = list(ex.map(one, self.jobs))
        n = 0
        with open(self.path, "w") as f:
            for (exe, argv, out, _), rc, so, se in results:
                m = re.search(r"COUNTS calls=(\d+) compressed=(\d+) events=(\d+)", so)
                crash = re.search(r"CRASH signal=(\d+) in (.*)", so)
                if summary and rc == 0 and m:
                    f.write(json.dumps({"k": "ran", "op": os.path.basename(exe), "args": argv[1:], "calls": min(2 ** 30, int(m.group(1)))}) + "\n")
                    n += 1
                if "LOSSY " in so:
                    self.counts["drivers_with_lossy_conversions"] = self.counts.get("drivers_with_lossy_conversions", 0) + 1
                if os.path.exists(out) and (not summary or "LOSSY " in so):
                    for line in open(out):
                        if line.endswith("}\n"):
                            f.write(line)
                            n += 1
                if rc == 0 and m:
                    for k, v in zip(("calls", "compressed", "events"), m.groups()):
                        self.counts[k] += int(v)
                elif crash or rc == "timeout" or (isinstance(rc, int) and rc < 0 and rc not in (-9, -15)):
                    where = crash.group(2) if crash else "signal %s" % rc
                    f.write(json.dumps({"k": "crash", "op": os.path.basename(exe), "where": where[:200],
                                        "signal": int(crash.group(1)) if crash else 0}) + "\n")
                    n += 1
                else:
                    raise ToolError("driver %s ended with %s\n%s\n%s" % (exe, rc, so[-500:], se[-500:]))
        self.counts["records"] = n
        if n == 0:
            raise ToolError("no records")
        return self.path


# --------------------------------------------------------------------------
# TLC
class TLCResult:
    pass


def tlc(build, module, cfg, env=None, timeout=800, workers=None, extra=(), dir=None):
    meta = os.path.join(build.out, "md_%s_%d" % (module, time.time_ns()))
    e = dict(ENV, **(env or {}))
    cmd = ["tlc", "-workers", str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
            "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=dir or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.wall = p.returncode, p.stdout, time.time() - t0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    r.transitions = int(m[-1][0].replace(",", "")) if m else 0
    r.states = int(m[-1][1].replace(",", "")) if m else 0
    r.ok = p.returncode == 0 and "Model checking completed. No error has been found" in r.out
    return r


def short(rec, k=24):
    if isinstance(rec, dict):
        return {a: short(b, k) for a, b in rec.items()}
    if isinstance(rec, list) and len(rec) > k:
        return rec[:k] + ["... %d elements" % len(rec)]
    return rec


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models, self.samples, self.assume = [], [], []
        self.records = 0
        self.counts = {}
        self.build = None
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def w(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- models
    def model(self, module, cfg, **kw):
        """Check a model of the specification (no implementation involved)."""
        r = tlc(self.build, module, cfg, **kw)
        if not r.ok:
            raise ToolError("model %s %s: the specification itself failed\n%s" % (module, cfg, r.out[-3000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"model": module, "config": cfg, "states": r.states, "wall_s": round(r.wall, 1)})

    def refutes(self, module, cfg, inv, **kw):
        """Check that the model with a defect in it is refuted: the invariant is not vacuous."""
        r = tlc(self.build, module, cfg, **kw)
        if "Invariant %s is violated" % inv not in r.out:
            raise ToolError("model %s %s: %s was to be violated\n%s" % (module, cfg, inv, r.out[-3000:]))
        self.models.append({"model": module, "config": cfg, "refuted": inv, "wall_s": round(r.wall, 1)})

    def lemmas(self, module, inv, timeout=400):
        """Facts for all integers, by SMT (Apalache): the invariant of the initial states."""
        out = os.path.join(self.build.out, "apalache")
        t0, p = time.time(), None
        for _ in range(2):
            try:
                p = subprocess.run(["apalache-mc", "check", "--length=0", "--out-dir=" + out, "--inv=" + inv, module + ".tla"], cwd=SPEC, env=ENV,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                continue
            if p.returncode in (0, 12):
                break
        shutil.rmtree(out, ignore_errors=True)
        if p is None or p.returncode != 0 or "EXITCODE: OK" not in p.stdout:
            raise ToolError("lemmas of %s\n%s" % (module, p.stdout[-2000:] if p else "time out"))
        self.models.append({"model": module + " (Apalache, all integers)", "invariant": inv, "wall_s": round(time.time() - t0, 1)})

    # ---- conformance
    def judge(self, path, module="Conf", cfg="Conf.cfg", lanes=LANES, timeout=800, env=None):
        lines = open(path).read().splitlines()
        r = tlc(self.build, module, cfg, env=dict(env or {}, TRACE=path), timeout=timeout)
        self.states += r.states
        self.transitions += r.transitions
        if r.ok:
            self.records += len(lines)
            for i in sorted({0, len(lines) // 3, 2 * len(lines) // 3, len(lines) - 1}):
                if len(self.samples) < 12:
                    self.samples.append(short(json.loads(lines[i])))
            return
        pos = re.findall(r"^/?\\?\s*/?\\?\s*pos = (\d+)", r.out, re.M)
        if not pos:
            raise ToolError("TLC failed without a trace\n" + r.out[-3000:])
        bad = int(pos[-1])
        if re.search(r"Invariant Conforms is violated", r.out):
            bad -= lanes
        elif "Complete" in r.out and "Overflow" not in r.out and "evaluat" not in r.out:
            raise ToolError("TLC did not judge every record\n" + r.out[-2000:])
        rec = json.loads(lines[bad - 1])
        # a rejection must reproduce on the record alone, by the same specification
        one = os.path.join(self.build.out, "rejected.json")
        with open(one, "w") as f:
            f.write(lines[bad - 1] + "\n")
        r2 = tlc(self.build, module, cfg, env=dict(env or {}, TRACE=one), timeout=timeout)
        if r2.ok:
            raise ToolError("the rejection of record %d does not reproduce\n%s" % (bad, r.out[-2000:]))
        raise Violation("record %d is not a behaviour of the specification" % bad, rec)

    def conform(self, recs, summary=False, serial=False, **kw):
        recs.run(summary, serial)
        for k, v in recs.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.judge(recs.path, **kw)

    # ---- histories: TLC walks through the machine of LibraryGen.tla, d_hist makes the calls
    def histories(self, cfg, num, depth, seed):
        r = tlc(self.build, "LibraryGen", cfg, workers=1,
                extra=("-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)))
        hs = []
        for m in re.finditer(r'^"HIST (\[.*\])"$', r.out, re.M):
            hs.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if len(hs) < num // 2 or "Error:" in r.out:
            raise ToolError("TLC generated %d histories from %s\n%s" % (len(hs), cfg, r.out[-2000:]))
        self.transitions += sum(map(len, hs))
        self.models.append({"model": "LibraryGen (simulation)", "config": cfg, "histories": len(hs), "wall_s": round(r.wall, 1)})
        path = os.path.join(self.build.out, cfg + ".in")
        with open(path, "w") as f:
            for h in hs:
                f.write("H\n")
                for e in h:
                    f.write("%s %d %d %d %d %d %d %d\n" % (e["f"], e["k"], e["n"], e["r"], e["d"], e["a"], e["b"], e["w"]))
        return path

    def judge_hist(self, recs, timeout=800):
        recs.run()
        for k, v in recs.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        lines = open(recs.path).read().splitlines()
        for line in lines:
            if line.startswith('{"k": "crash"'):
                raise Violation("a call of a history ended abnormally", json.loads(line))
        r = tlc(self.build, "TraceHist", "TraceHist.cfg", env={"TRACE": recs.path}, timeout=timeout)
        self.states += r.states
        self.transitions += r.transitions
        if r.ok:
            self.records += len(lines)
            self.samples.append(short(json.loads(lines[0]), 6))
            return
        if "Invariant Conforms is violated" not in r.out:
            raise ToolError("TLC failed on the histories\n" + r.out[-3000:])
        h = int(re.findall(r"^/\\ hNo = (\d+)", r.out, re.M)[-1])
        k = int(re.findall(r"^/\\ callNo = (\d+)", r.out, re.M)[-1]) - 1
        rec = json.loads(lines[h - 1])
        one = os.path.join(self.build.out, "rejected.json")
        rec["calls"] = rec["calls"][:k]
        with open(one, "w") as f:
            f.write(json.dumps(rec) + "\n")
        if tlc(self.build, "TraceHist", "TraceHist.cfg", env={"TRACE": one}, timeout=timeout).ok:
            raise ToolError("the rejection of history %d does not reproduce" % h)
        raise Violation("call %d of the history is not a transition of the specification" % k, rec)

    # ---- verdict
    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.records,
               "samples": self.samples[:12], "models": self.models}
        cov.update({"library_calls": self.counts.get("calls", 0),
                    "calls_in_compressed_records": self.counts.get("compressed", 0)})
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def run(self, body):
        try:
            self.build = Build(self.pid)
            body(self)
        except Violation as v:
            os.makedirs(EVID, exist_ok=True)
            replay = os.path.join(EVID, "%s.replay.json" % self.pid)
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "why": v.what, "seed": self.seed, "tier": self.tier,
                           "record": v.record}, f)
            self.samples.append(short(v.record))
            self.evidence(1)
            print(json.dumps(short(v.record))[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, replay), flush=True)
            self.cleanup()
            return 1
        except Exception as e:      # the machinery failed: no verdict
            if not isinstance(e, ToolError):
                traceback.print_exc()
            print("ERROR: %s" % e, file=sys.stderr)
            self.cleanup()
            return 3
        self.evidence(0)
        self.cleanup()
        print("%s: ok, %d records, %d calls, %.1f s" % (self.pid, self.records, self.counts.get("calls", 0),
                                                        time.time() - self.t0))
        return 0

    def cleanup(self):
        if self.build and not os.environ.get("VT_KEEP"):
            shutil.rmtree(self.build.dir, ignore_errors=True)
