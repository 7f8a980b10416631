"""One function per property."""
import os, shutil
import tables as tb
from vt import HARNESS, NCPU, REPO, Records, sh

ELEM = ("-O3", "-mavx2")


def products(fam):
    def body(c):
        b = c.build
        b.library()
        exe = b.driver("d_prod.c", fam)
        r = Records(b)
        for k in range(c.w(1, 6)):
            r.add(exe, lambda p, k=k: [c.seed + 1000 * k, c.w(1, 2), p, 2 * NCPU], parts=2 * NCPU, timeout=c.w(200, 600))
        c.model("Pipeline", "Pipeline.cfg")
        c.conform(r)
    return body


def transforms(fams, mode):
    def body(c):
        b = c.build
        b.library()
        r = Records(b)
        for fam in fams:
            exe = b.driver("d_xform.c", fam)
            for k in range(c.w(1, 4)):
                r.add(exe, lambda p, k=k: [c.seed + 1000 * k, c.w(1, 4), p, 2 * NCPU, mode], parts=2 * NCPU, timeout=c.w(200, 600))
        c.model("TransformMC", "TransformMC_n16.cfg")
        if c.thorough:
            c.model("TransformMC", "TransformMC_q17n4.cfg")
        c.conform(r)
    return body


def elementwise(jobs):
    def body(c):
        b = c.build
        b.library()
        r = Records(b)
        for fam, mode in jobs:
            exe = b.driver("d_elem.c", fam, ELEM)
            parts = 1 if mode == 2 else NCPU
            for k in range(c.w(1, 4) if mode else 1):
                r.add(exe, lambda p, k=k, mode=mode: [c.seed + 1000 * k, c.w(1, 5), p, parts, mode], parts=parts, timeout=c.w(200, 600))
        if any(fam >= 3 for fam, _ in jobs):
            c.lemmas("RedLemmas", "Lemmas")
        c.conform(r)
    return body


def bounds(mode):
    def body(c):
        b = c.build
        b.library()
        exe = b.driver("d_bounds.c", 5)
        r = Records(b)
        for k in range(c.w(1, 6)):
            r.add(exe, lambda p, k=k: [c.seed + 1000 * k, 1, p, NCPU, mode, b.out], timeout=c.w(200, 600))
        c.model("BoundsMC", "BoundsMC.cfg")
        if mode == 2:
            c.model("AbstractMC", c.w("AbstractMC.cfg", "AbstractMC_t.cfg"))
        c.lemmas("RedLemmas", "Lemmas")
        c.conform(r)
    return body


def tables(c):
    path = os.path.join(c.build.out, "tables.json")
    c.counts["calls"] = tb.tables(c.build, path, c.seed, c.thorough)
    c.judge(path)


def generators(c):
    path = os.path.join(c.build.out, "gen.json")
    c.counts["calls"] = tb.generators(c.build, path, c.seed, c.thorough)
    c.judge(path)


def faults(c):
    c.model("GenIOMC", "GenIOMC.cfg")
    c.refutes("GenIOMC", "GenIOMC_unchecked.cfg", "NoFalseSuccess")
    path = os.path.join(c.build.out, "io.json")
    c.counts["calls"], c.notes["faults_injected_in_system_calls"] = tb.faults(c.build, path, c.seed, c.thorough)
    c.judge(path)


def roots(c):
    path = os.path.join(c.build.out, "roots.json")
    c.counts["calls"] = tb.roots(path)
    c.judge(path)


def sort(c):
    b = c.build
    b.library()
    r = Records(b)
    r.add(b.driver("d_sort.c"), lambda p: [c.seed, c.w(1, 10), p, NCPU], timeout=c.w(100, 300))
    c.model("Sort", c.w("Sort_q.cfg", "Sort_t.cfg"))
    c.refutes("Sort", "Sort_left.cfg", "Depth")
    c.conform(r)


def memory(c):
    b = c.build
    b.library()
    r = Records(b)
    for fam in (1, 2, 3, 4):
        r.add(b.driver("d_mem.c", fam), lambda p: [c.seed, c.w(1, 8), p, 2], parts=2, timeout=c.w(200, 600))
    r.add(b.driver("d_memi.c", 5), lambda p: [c.seed, c.w(1, 4), p, 4], parts=4, timeout=c.w(200, 600))
    c.conform(r)


# every arithmetic operation of the C code traps when its result is not defined; conversions to a signed
# type that change the value are counted; the assertions of the library are compiled in
TRAPS = ["CC=clang", "CPPFLAGS=-D_DEFAULT_SOURCE",
         "CFLAGS=-std=c99 -O1 -fsanitize=undefined,implicit-signed-integer-truncation "
         "-fno-sanitize=alignment -fsanitize-trap=undefined -fsanitize-recover=implicit-signed-integer-truncation -fsanitize-minimal-runtime"]


def overflow(c):
    b = c.build
    b.library(make=TRAPS)
    r = Records(b)
    np = 2 * NCPU
    for fam in (1, 2, 3):
        x = b.driver("d_xform.c", fam)
        for mode in (0, 1):
            r.add(x, lambda p, mode=mode: [c.seed, c.w(1, 4), p, np, mode], parts=np, timeout=c.w(400, 1200))
        x = b.driver("d_prod.c", fam)
        r.add(x, lambda p: [c.seed, 1, p, np], parts=np, timeout=c.w(400, 1200))
        x = b.driver("d_elem.c", fam, ELEM)
        for mode in (0, 1) if fam == 3 else (1,):
            r.add(x, lambda p, mode=mode: [c.seed, 1, p, NCPU, mode], parts=NCPU, timeout=c.w(400, 1200))
    c.model("GrowthMC", c.w("GrowthMC.cfg", "GrowthMC_t.cfg"))
    c.model("Pipeline", c.w("Pipeline.cfg", "Pipeline_1024.cfg"))
    if c.thorough:
        for n in (256, 512):
            c.model("Pipeline", "Pipeline_%d.cfg" % n)
    c.conform(r, summary=True)
    # bounds and intervals: these report overflow themselves, so what they answer is judged too
    r = Records(b, "bounds")
    exe = b.driver("d_bounds.c", 5)
    for mode in (0, 1, 2):
        r.add(exe, lambda p, mode=mode: [c.seed + 500, 1, p, NCPU, mode, b.out], parts=c.w(3, NCPU), timeout=c.w(400, 1200))
    c.conform(r)


def histories(c):
    b = c.build
    b.library()
    r, big = Records(b, "hist"), Records(b, "histbig")
    for fam, name in ((1, "plain"), (2, "naive"), (3, "red"), (4, "asm")):
        exe = b.driver("d_hist.c", fam)
        src = c.histories("LibraryGen_%s.cfg" % name, c.w(150, 1500), 24, c.seed)
        r.add(exe, lambda p: [src, c.seed, p, 2, 64], parts=2, timeout=c.w(200, 600))
        src2 = c.histories("LibraryGenBig_%s.cfg" % name, c.w(8, 80), 12, c.seed)
        big.add(exe, lambda p: [src2, c.seed, p, 2, 1024], parts=2, timeout=c.w(200, 600))
    c.judge_hist(r)
    c.judge_hist(big)
    c.model("Threads", "Threads.cfg")
    c.refutes("Threads", "Threads_shared.cfg", "Products")
    r = Records(b, "threads")
    for fam in (1, 2, 3, 4):
        exe = b.driver("d_thread.c", fam)
        for k in range(c.w(1, 4)):
            r.add(exe, lambda p: [c.seed + k, c.w(2500, 10000), NCPU, 1024], parts=1, timeout=c.w(400, 800))
    for k in range(c.w(1, 4)):
        r.add(b.driver("d_pure.c", 5), lambda p: [c.seed + k, c.w(2500, 10000), NCPU], parts=1, timeout=c.w(400, 800))
    for x in ("nothing", "table", "flag1", "last1"):
        c.model("Cache", "Cache_%s.cfg" % x)
    c.refutes("Cache", "Cache_flag.cfg", "PureFirst")
    c.refutes("Cache", "Cache_last.cfg", "Pure")
    c.refutes("Cache", "Cache_partly.cfg", "Pure")
    c.conform(r, serial=True)


def verifier(c):
    b = c.build
    exe = os.path.join(b.out, "d_verif")
    # the domain of the verifier, compiled against a stand-in for the Crab library
    sh(["g++", "-std=c++14", "-O1", "-w", "-I", os.path.join(HARNESS, "crabstub"), "-I", HARNESS,
        "-I", os.path.join(REPO, "verifier", "src"), "-o", exe, os.path.join(HARNESS, "d_verif.cpp")])
    r = Records(b)
    r.add(exe, lambda p: [c.seed, c.w(1, 10), p, NCPU], timeout=c.w(200, 600))
    c.lemmas("RedLemmas", "Lemmas")
    c.model("VerifierMC", c.w("VerifierMC.cfg", "VerifierMC_t.cfg"))
    c.conform(r)


def convention(c):
    b = c.build
    b.library()
    r = Records(b)
    r.add(b.driver("d_abi.c", 4, ("-O1", "-mavx2")), lambda p: [c.seed, c.w(2, 30), p, NCPU], timeout=c.w(200, 600))
    c.conform(r)


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]


def ownership(c):
    b = c.build
    b.library()
    r = Records(b)
    r.add(b.driver("d_heap.c", 5, link=WRAP), lambda p: [c.seed, c.w(1, 8), p, NCPU], timeout=c.w(200, 600))
    c.model("OwnershipMC", "OwnershipMC.cfg")
    c.refutes("OwnershipMC", "OwnershipMC_early.cfg", "Safe")
    c.refutes("OwnershipMC", "OwnershipMC_keep.cfg", "Balanced")
    c.conform(r)


PROGS = ["harness_" + x for x in ("ntt_red1024", "ntt_red1024b", "ntt_red1024c", "ntt_red1024d", "ntt_red1024e", "ntt_red1024f",
                                  "intt_red1024", "intt_red1024b")]
TRANSFORMS = ["ntt_red_%s" % x for x in ("ct_rev2std", "ct_std2rev", "gs_rev2std", "gs_std2rev")]


def benchmarks(c):
    """The programs given to the verifier, and their copy of the library, linked with concrete primitives."""
    b = c.build
    d = os.path.join(b.dir, "bench")
    shutil.copytree(os.path.join(REPO, "verifier", "vstte20-benchmarks"), d)
    cc = ["gcc", "-std=gnu11", "-O1", "-fwrapv", "-w", "-D_GNU_SOURCE", "-DSAFE", "-DBENCH", "-DFAM=3", "-I", d, "-I", HARNESS]
    sh(["gcc", "-std=c99", "-w", "-o", "make_red_tables", "make_red_tables.c"], cwd=d)
    path = os.path.join(b.out, "btab.json")
    c.counts["calls"] = tb.bench_tables(b, d, path, c.seed, c.thorough)
    c.judge(path)
    c.lemmas("RedLemmas", "Lemmas")
    sh(["./make_red_tables", "1024", "1014"], cwd=d)
    for m in ("ntt_red1024", "ntt_red1024_tables"):
        sh(cc + ["-c", m + ".c"], cwd=d)
    for tag, f in (("i", ["-DUSE_CRAB_INTRINSICS"]), ("c", [])):
        sh(cc + f + ["-c", "-o", "ntt_red_%s.o" % tag, "ntt_red.c"], cwd=d)
    sh(cc + ["-c", os.path.join(HARNESS, "clam_stub.c")], cwd=d)
    for p in PROGS:
        sh(cc + ["-c", "-Dmain=prog_" + p, p + ".c"], cwd=d)

    def driver(src, tag, more=(), opt=()):
        exe = os.path.join(b.out, os.path.splitext(src)[0] + "_" + tag)
        sh(cc + [*opt, "-o", exe, os.path.join(HARNESS, src)] + [os.path.join(d, o) for o in ("ntt_red_%s.o" % tag, "ntt_red1024.o", "ntt_red1024_tables.o", "clam_stub.o", *more)] + ["-lm"])
        return exe
    r = Records(b)
    for tag in ("i", "c"):
        exe = driver("d_bench.c", tag, [p + ".o" for p in PROGS], ["-Wl," + ",".join("--wrap=" + t for t in TRANSFORMS)])
        r.add(exe, lambda p: [c.seed, c.w(2, 20), p, NCPU], timeout=c.w(200, 600))
    exe = driver("d_xform.c", "c")
    for mode in (0, 1):
        r.add(exe, lambda p, mode=mode: [c.seed, c.w(1, 4), p, 2 * NCPU, mode], parts=2 * NCPU, timeout=c.w(200, 600))
    r.add(driver("d_prod.c", "c"), lambda p: [c.seed, 1, p, 2 * NCPU], parts=2 * NCPU, timeout=c.w(200, 600))
    exe = driver("d_elem.c", "c", opt=["-O3", "-mavx2"])
    for mode in (0, 1):
        r.add(exe, lambda p, mode=mode: [c.seed, 1, p, NCPU, mode], parts=NCPU, timeout=c.w(200, 600))
    c.conform(r)


def answers(c):
    b = c.build
    sh(["make", "-C", b.src, "data_poly1024.o"])
    r = Records(b)
    for kind, prog in ((1, "kat_mul1024"), (3, "kat_mul1024_red"), (4, "kat_mul1024_red_asm")):
        exe = os.path.join(b.out, "d_" + prog)
        cc = ["gcc", "-std=gnu11", "-O1", "-w", "-D_GNU_SOURCE", "-DKIND=%d" % kind, "-I", b.src, "-I", HARNESS]
        sh(cc + ["-Dmain=kat_main", "-c", "-o", exe + ".o", os.path.join(b.src, prog + ".c")])
        sh(cc + ["-o", exe, os.path.join(HARNESS, "d_kat.c"), exe + ".o", os.path.join(b.src, "data_poly1024.o")])
        r.add(exe, lambda p: [c.seed, c.w(1, 10), p, NCPU], timeout=c.w(200, 600))
    c.model("Pipeline", "Pipeline.cfg")
    c.conform(r)


def speeds(c):
    """The programs that measure the products, linked with products that advance a clock of our own."""
    b = c.build
    sh(["make", "-C", b.src, "sort.o"])
    r = Records(b)
    for kind, prog in ((1, "speed_mul1024"), (2, "speed_mul1024_naive"), (3, "speed_mul1024_red"), (4, "speed_mul1024_red_asm")):
        sh(["make", "-C", b.src, prog + ".o"])
        exe = os.path.join(b.out, "d_" + prog)
        cc = ["gcc", "-std=gnu11", "-O1", "-w", "-D_GNU_SOURCE", "-DKIND=%d" % kind, "-I", b.src, "-I", HARNESS]
        sh(["objcopy", "--redefine-sym", "main=speed_main", os.path.join(b.src, prog + ".o"), exe + ".o"])
        sh(cc + ["-o", exe, os.path.join(HARNESS, "d_speed.c"), exe + ".o", os.path.join(b.src, "sort.o")])
        r.add(exe, lambda p: [c.seed, c.w(2, 20), p, NCPU, b.out], timeout=c.w(200, 600))
    c.model("SpeedMC", c.w("SpeedMC.cfg", "SpeedMC_t.cfg"))
    c.refutes("SpeedMC", "SpeedMC_last.cfg", "Exact")
    c.conform(r)


CHECKS = {
    "C29": speeds,
    "C28": answers,
    "C27": ownership,
    "C26": faults,
    "C25": benchmarks,
    "C24": convention,
    "C22": verifier,
    "C21": histories,
    "C20": overflow,
    "C15": memory,
    "C19": sort,
    "C13": tables, "C14": generators, "C23": roots,
    "C01": products(1), "C02": products(3), "C03": products(4), "C04": products(2),
    "C05": transforms([1, 2], 0), "C06": transforms([3], 0), "C07": transforms([4], 0),
    "C08": transforms([1, 2, 3, 4], 1),
    "C09": elementwise([(3, 0)]),
    "C10": elementwise([(1, 1), (2, 1), (3, 1)]),
    "C11": elementwise([(4, 0), (4, 1)]),
    "C12": elementwise([(1, 2), (2, 2)]),
    "C16": bounds(1), "C17": bounds(2), "C18": bounds(0),
}
