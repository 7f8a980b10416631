"""Runs of the table generators and dumps of what they write."""
import json, os, random, resource, shutil, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from vt import ENV, HARNESS, NCPU, REPO, SIZES, ToolError

Q = 12289


def psis(n):
    r = pow(41, 4096 // (2 * n), Q)
    return [pow(r, k, Q) for k in range(1, 2 * n, 2)]


def crash(op, where):
    return json.dumps({"k": "crash", "op": op, "where": where[:300], "signal": 0}) + "\n"


def run_gen(b, tool, args, d, src=None):
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([os.path.join(src or b.src, tool)] + [str(a) for a in args], cwd=d, env=ENV, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
        return p.returncode
    except subprocess.TimeoutExpired:
        return -99


def dump(b, d, csrc, n, red, mode, psi, origin, raw, flags=()):
    """Compile the dumper with a table file; a file that does not compile is a record of its own."""
    exe = os.path.join(d, "dump")
    p = subprocess.run(["gcc", "-std=gnu11", "-O0", "-w", *flags, "-DN=%d" % n, "-DRED=%d" % red, "-DMODE=%d" % mode, "-I", os.path.dirname(csrc), "-o", exe,
                        os.path.join(HARNESS, "tab_dump.c"), csrc], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return crash(origin, "generated source does not compile: n=%d psi=%d %s" % (n, psi, p.stdout[-150:]))
    p = subprocess.run([exe, str(psi), origin, str(raw)], env=ENV, stdout=subprocess.PIPE, timeout=120, text=True)
    if p.returncode:
        return crash(origin, "dump n=%d psi=%d ended with %d" % (n, psi, p.returncode))
    return p.stdout


def scan(b, src=None, reds=(0, 1)):
    """Runs of the generators for every size and root; see harness/tab_scan.c."""
    exe = os.path.join(b.out, "tab_scan")
    subprocess.run(["gcc", "-O2", "-o", exe, os.path.join(HARNESS, "tab_scan.c")], env=ENV, check=True)
    jobs = []
    for red in reds:
        for k in range(1, 12):
            ps = sorted(psis(2 ** k))       # the first root is among those that are dumped
            for i in range(0, len(ps), 256):
                jobs.append((red, 2 ** k, ps[0], ps[i:i + 256]))

    def one(ij):
        i, (red, n, first, ps) = ij
        d = os.path.join(b.out, "scan%d" % i)
        os.makedirs(d)
        try:
            p = subprocess.run([exe, os.path.join(src or b.src, "make_red_tables" if red else "make_tables"), str(red), str(n), str(first)] + [str(x) for x in ps],
                               cwd=d, env=ENV, stdout=subprocess.PIPE, text=True, timeout=800)
            lines = p.stdout.split("\n")
            if p.returncode or not any(l.startswith("passed") for l in lines):
                raise ToolError("tab_scan: %d" % p.returncode)
            return (red, n), [int(l) for l in lines if l and not l.startswith("passed")]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    odd = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for key, bad in ex.map(one, enumerate(sorted(jobs, key=lambda j: -j[1]))):
            odd.setdefault(key, []).extend(bad)
    return odd


def tables(b, path, seed, thorough):
    """Records of the contents of generated and committed tables."""
    rng = random.Random(seed)
    jobs = []
    odd = {} if thorough else scan(b)      # roots whose sources the filter does not explain
    for red in (0, 1):
        for k in range(1, 12):
            n = 2 ** k
            ps = psis(n)
            few = len(ps) if thorough or n <= 64 else 40
            pick = ps if few >= len(ps) else sorted(ps)[:4] + sorted(ps)[-4:] + rng.sample(ps, few)
            strange = [p for p in odd.get((red, n), []) if p not in pick]
            pick += strange if len(strange) <= 40 else rng.sample(strange, 40)
            lib = {16: 1212, 256: 1002, 512: 1003, 1024: 1014}.get(n)
            if lib and lib not in pick:
                pick = [lib] + pick
            for i, psi in enumerate(pick):
                jobs.append(("gen", red, n, psi, 1 if n <= 16 or (n <= 512 and i == 0) else 0))
    for k in range(1, 16):
        jobs.append(("bitrev", 0, 2 ** k, 0, 0))
    for n in SIZES:
        jobs.append(("committed-bitrev", 0, n, 0, 0))
    jobs.append(("committed-32", 0, 32, 563, 1))

    def one(ij):
        i, (what, red, n, psi, raw) = ij
        d = os.path.join(b.out, "tab%d" % i)
        try:
            if what == "committed-bitrev":
                os.makedirs(d)
                return dump(b, d, os.path.join(REPO, "src", "bitrev%d_table.c" % n), n, 0, 1, 0, "bitrev%d_table.c" % n, 0)
            if what == "committed-32":
                os.makedirs(d)
                f = os.path.join(REPO, "src", "ntt32_tables.c")
                return dump(b, d, f, 32, 0, 2, psi, "ntt32_tables.c", raw) if os.path.exists(f) else ""
            tool = "make_bitrev_table" if what == "bitrev" else "make_red_tables" if red else "make_tables"
            args = [n] if what == "bitrev" else [n, psi]
            rc = run_gen(b, tool, args, d)
            f = os.path.join(d, ("bitrev%d_table.c" if what == "bitrev" else "ntt_red%d_tables.c" if red else "ntt%d_tables.c") % n)
            if rc != 0 or not os.path.exists(f):
                return crash(tool, "no table for valid arguments %s (status %s)" % (args, rc))
            return dump(b, d, f, n, red, 1 if what == "bitrev" else 0, psi, tool, raw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, enumerate(jobs)))
    with open(path, "w") as f:
        f.write("".join(outs))
    return len(jobs) + (0 if thorough else 2 * sum(2 ** k for k in range(1, 12)))


def bench_tables(b, src, path, seed, thorough):
    """The same for the generator that comes with the programs for the verifier."""
    rng = random.Random(seed)
    jobs = [(1024, 1014)] + [(2 ** k, p) for k in range(1, 12) for p in [min(psis(2 ** k))] + rng.sample(psis(2 ** k), min(2 ** k, 20 if thorough else 2))]
    for (red, n), ps in scan(b, src, (1,)).items():
        jobs += [(n, p) for p in (ps if len(ps) <= 20 else rng.sample(ps, 20))]

    def one(ij):
        i, (n, psi) = ij
        d = os.path.join(b.out, "btab%d" % i)
        try:
            rc = run_gen(b, "make_red_tables", [n, psi], d, src)
            f = os.path.join(d, "ntt_red%d_tables.c" % n)
            if rc != 0 or not os.path.exists(f):
                return crash("make_red_tables", "no table for valid arguments %d %d (status %s)" % (n, psi, rc))
            return dump(b, d, f, n, 1, 0, psi, "make_red_tables", 1 if n <= 64 else 0, ["-DBENCH"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, enumerate(jobs)))
    with open(path, "w") as f:
        f.write("".join(outs))
    return len(jobs)


def clip(a):
    try:
        v = int(a)
    except ValueError:
        v = 0
    return max(-2000000000, min(2000000000, v))


def generators(b, path, seed, thorough):
    """Records of which arguments the generators accept."""
    rng = random.Random(seed)
    sizes = [0, 1, -1, -2, -16, 2, 3, 4, 5, 6, 8, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 96, 100, 127, 128, 255, 256, 257, 384, 512, 768, 1000,
             1023, 1024, 1025, 1536, 2047, 2048, 2049, 3072, 4096, 6144, 8192, 12288, 12289, 16384, 24576, 32768, 32767, 49152, 65534, 65535, 65536, 65537,
             98304, 99999, 100000, 131072, 262144, 1048576, 2147483648, 4294967296, 4294967298, 4294967312, 4294968320, 9223372036854775807, -9223372036854775808, "abc", "",
             "02", "010", "016", "0064", "0512", "001024", "0x10", "0x400"]
    jobs = []
    for s in sizes + [rng.randrange(2, 70000) for _ in range(200 if thorough else 40)]:
        jobs.append(("make_bitrev_table", [s]))
    for extra in ([], [16, 16], [16, 1212, 3]):
        jobs.append(("make_bitrev_table", extra))
    for tool in ("make_tables", "make_red_tables"):
        for s in sizes:
            ps = [0, 1, -1, 2, 3, 6144, 12288, 12289, 12290, 12289 + 1212, 4294967296 + 1212, 1212, 1002, 1003, 1014, "x"]
            if isinstance(s, int) and 2 <= s <= 2048 and s & (s - 1) == 0:
                ok = psis(s)
                ps += rng.sample(ok, min(len(ok), 12))
                ps += [p + 12289 for p in rng.sample(ok, 1)] + [-p for p in rng.sample(ok, 1)] + [p * p % Q for p in rng.sample(ok, 2 if len(ok) > 2 else 1)]
                ps += [rng.choice(psis(n2)) for n2 in (s // 2 if s > 2 else 4, s * 2 if s < 2048 else 4)]
            if isinstance(s, str) and s.isdigit() and int(s) in range(2, 2049) and int(s) & (int(s) - 1) == 0:
                ok = psis(int(s))
                ps += ["%06d" % p for p in rng.sample(ok, min(len(ok), 6))] + [hex(p) for p in rng.sample(ok, 2)] + rng.sample(ok, 2)
            for p in ps + [rng.randrange(2, Q) for _ in range(40 if thorough else 6)]:
                jobs.append((tool, [s, p]))
        for extra in ([], [16], [16, 1212, 1], [16, 1212, 1, 1]):
            jobs.append((tool, extra))
    def one(ij):
        i, (tool, args) = ij
        d = os.path.join(b.out, "gen%d" % i)
        try:
            rc = run_gen(b, tool, args, d)
            files = len(os.listdir(d))
            return json.dumps({"k": "gen", "op": tool, "args": [clip(a) for a in args], "status": 0 if rc == 0 else 1 if rc > 0 else 2, "files": files}) + "\n"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # every value of one argument, the other fixed
    sweeps = []
    step = 1024
    def add(tool, args, lo, hi):
        for a in range(lo, hi + 1, step):
            sweeps.append((tool, args, a, min(hi, a + step - 1)))
    for tool in ("make_tables", "make_red_tables"):
        for n in [2 ** k for k in range(1, 12)] + ([3, 6, 24, 48, 96, 1000, 1536, 3072, 4096, 8192, 65536] if thorough else rng.sample([3, 6, 24, 48, 96, 1536, 3072, 4096, 8192], 1)):
            add(tool, [n, "@"], 0, Q + 10)
        for _ in range(4 if thorough else 1):
            add(tool, ["@", rng.choice(psis(2 ** rng.randrange(1, 12)))], 0, 100010 if thorough else 6200)
    add("make_bitrev_table", ["@"], 0, 70000 if thorough else 4200)
    if not thorough:
        add("make_bitrev_table", ["@"], 8180, 8200)
        add("make_bitrev_table", ["@"], 16380, 16390)
        add("make_bitrev_table", ["@"], 32760, 32775)
        add("make_bitrev_table", ["@"], 65500, 65600)
    exe = os.path.join(b.out, "d_gen")
    subprocess.run(["gcc", "-O1", "-o", exe, os.path.join(HARNESS, "d_gen.c")], env=ENV, check=True)

    def sweep(ij):
        i, (tool, args, lo, hi) = ij
        d = os.path.join(b.out, "sweep%d" % i)
        os.makedirs(d)
        try:
            p = subprocess.run([exe, os.path.join(b.src, tool), tool, str(lo), str(hi)] + [str(a) for a in args], cwd=d, env=ENV, stdout=subprocess.PIPE, text=True, timeout=600)
            if p.returncode:
                raise ToolError("d_gen: %d" % p.returncode)
            return p.stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, enumerate(jobs))) + list(ex.map(sweep, enumerate(sweeps)))
    with open(path, "w") as f:
        f.write("".join(outs))
    return len(jobs) + sum(hi - lo + 1 for _, _, lo, hi in sweeps)


def strace_works(b):
    try:
        p = subprocess.run(["strace", "-f", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", "sh", "-c", "echo x || exit 7"],
                           env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        return p.returncode == 7
    except (OSError, subprocess.TimeoutExpired):
        return False


def faults(b, path, seed, thorough):
    """Records of runs of the generators in which the system refuses to open, write or close a file."""
    rng = random.Random(seed)
    inject = strace_works(b)
    shim = os.path.join(b.out, "nomem.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(HARNESS, "nomem.c")], env=ENV, check=True)
    names = {"make_tables": "ntt%d_tables.", "make_red_tables": "ntt_red%d_tables.", "make_bitrev_table": "bitrev%d_table."}
    jobs = []
    for tool in names:
        for k in ([1, 4, 8, 10] if not thorough else range(1, 12)):
            n = 2 ** k
            args = [n] if tool == "make_bitrev_table" else [n, rng.choice(psis(n))]
            jobs.append((tool, n, args))

    def run(tool, args, d, limit=None, trace=(), mem=None):
        env = ENV if mem is None else dict(ENV, LD_PRELOAD=shim, NOMEM_AT=str(mem[0]), NOMEM_COUNT=str(mem[1]), NOMEM_MIN="16")
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            return subprocess.run([*trace, os.path.join(b.src, tool)] + [str(a) for a in args], cwd=d, env=env, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, timeout=60, preexec_fn=pre).returncode
        except subprocess.TimeoutExpired:
            return -99

    def one(ij):
        i, (tool, n, args) = ij
        base = os.path.join(b.out, "io%d" % i)
        h, cc = names[tool] % n + "h", names[tool] % n + "c"
        os.makedirs(base + "/ref")
        out = []
        try:
            run(tool, args, base + "/ref")
            want = {f: open(os.path.join(base, "ref", f), "rb").read() if os.path.exists(os.path.join(base, "ref", f)) else b"" for f in (h, cc)}
            hl, cl = len(want[h]), len(want[cc])
            lims = {0, 1, 100, hl - 1, hl, hl + 1, cl - 1, cl, cl + 1, cl // 2, 4095, 4096, 4097, 8192} | {rng.randrange(0, cl + 2) for _ in range(30 if thorough else 4)}
            fs = [("none", 0), ("stale", 0), ("dir-h", 0), ("dir-c", 0), ("full-h", 0), ("full-c", 0)] + [("limit", v) for v in sorted(lims) if v >= 0]
            fs += [("memory", v) for v in range(1, 9)] + [("memory-all", v) for v in range(1, 9)]
            if inject:
                fs += [("open-h", 1), ("open-c", 1), ("close-h", 1), ("close-c", 1), ("write-h", 1)]
                nw = max(1, (cl + 4095) // 4096)
                fs += [("write-c", v) for v in sorted({1, nw, (nw + 1) // 2, 2 if nw > 1 else 1})]
            for f, v in fs:
                d = os.path.join(base, "run")
                os.makedirs(d)
                sfx = f.split("-")[-1]
                target = os.path.join(d, h if sfx == "h" else cc)
                if f.startswith("dir"):
                    os.mkdir(target)
                elif f.startswith("full"):
                    os.symlink("/dev/full", target)
                elif f == "stale":
                    for x in (h, cc):
                        open(os.path.join(d, x), "wb").write(b"#error stale\n" * (1 + (hl + cl) // 8))
                tr = ()
                if f.split("-")[0] in ("open", "close", "write"):
                    call = {"open": "open,openat", "close": "close", "write": "write"}[f.split("-")[0]]
                    tr = ("strace", "-o", base + "/log", "-P", os.path.basename(target), "-P", os.path.realpath(target), "-e", "trace=" + call, "-e", "inject=%s:error=%s:when=%d" % (call, "EACCES" if call[0] == "o" else "EIO" if call[0] == "c" else "ENOSPC", v))
                rc = run(tool, args, d, v if f == "limit" else None, tr, (v, 1 if f == "memory" else 10 ** 6) if f.startswith("memory") else None)
                hit = 0
                if tr and os.path.exists(base + "/log"):
                    hit = 1 if "(INJECTED)" in open(base + "/log", errors="replace").read() else 0
                    os.unlink(base + "/log")
                ok = {}
                for x in (h, cc):
                    p = os.path.join(d, x)
                    ok[x] = 1 if os.path.isfile(p) and not os.path.islink(p) and want[x] and open(p, "rb").read() == want[x] else 0
                out.append(json.dumps({"k": "io", "op": tool, "args": args, "fault": f, "at": v, "limit": v if f == "limit" else 0, "hlen": hl, "clen": cl, "hit": hit,
                                       "status": 0 if rc == 0 else 1 if rc > 0 else 2, "hok": ok[h], "cok": ok[cc]}) + "\n")
                shutil.rmtree(d)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        outs = [x for o in ex.map(one, enumerate(jobs)) for x in o]
    with open(path, "w") as f:
        f.write("".join(outs))
    return len(outs), inject


def roots(path):
    with open(path, "w") as f:
        for n in (1024, 2048, 4096):
            v = []
            for line in open(os.path.join(REPO, "data", "primitive-roots-%d.txt" % n)):
                line = line.split("#")[0].strip()
                v += [int(x) for x in line.split()]
            f.write(json.dumps({"k": "roots", "op": "data", "n": n, "v": v}) + "\n")
    return 3
