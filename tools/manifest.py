"""MANIFEST.json from the list of checks."""
import checks
T = "TLA+ specification checked with TLC; records of calls of the real library validated against it by TLC"
TECH = {
    "C01": T, "C02": T, "C03": T, "C04": T, "C05": T, "C06": T, "C07": T, "C08": T, "C12": T, "C16": T, "C17": T, "C18": T,
    "C09": T + " (all 2^32 arguments in compressed form)", "C10": T, "C11": T + " (all 2^32 arguments in compressed form)",
    "C13": "TLA+ definition of every table; generated sources compiled, dumped and judged by TLC entry by entry",
    "C14": "TLA+ acceptance predicate of the generators; recorded runs (exit status, files) judged by TLC",
    "C15": "TLA+ footprints of all operations; recorded runs between guard pages judged by TLC",
    "C19": "TLA+ state machine of the quicksort model-checked with TLC; recorded calls judged by TLC",
    "C20": "TLA+ model of the growth of magnitudes per round checked with TLC; runs with traps on undefined arithmetic judged by TLC",
    "C21": "TLA+ state machine of the library; histories generated by TLC from it are replayed in the library and the recorded traces validated by TLC",
    "C22": "TLA+ model of abstract interpretation with the verifier's domain checked with TLC; records of the domain's operations (compiled against a stand-in for Crab) judged by TLC",
    "C29": "TLA+ state machine of a measurement checked with TLC; recorded runs of the programs on a clock of the harness judged by TLC",
    "C28": "TLA+ definition of the product; the known-answer triples and recorded runs of the known-answer programs with one wrong coefficient judged by TLC",
    "C27": "TLA+ state machine of the ownership of intervals checked with TLC; recorded sequences of allocations and releases of the real functions judged by TLC",
    "C26": "TLA+ state machine of a generator with faults of the system checked with TLC; recorded runs with injected faults judged by TLC",
    "C25": T + " (programs linked with concrete versions of the verifier's primitives)",
    "C24": "TLA+ statement of the calling convention; records of calls with random register contents judged by TLC",
    "C23": "TLA+ definition of primitive roots; the published lists judged by TLC",
}
NOTE = {
    "C01": "Bounded: every monomial-by-monomial position is covered for n=16 and sampled above; full random and special vectors for all sizes. Linearity of the pipeline carries columns over to all vectors for plain values; magnitudes are covered by adversarial inputs.",
    "C05": "All columns (unit vectors) of every transform for sampled sizes and roots: with linearity modulo q they determine the map; plus full vectors.",
    "C09": "Exhaustive over the 32-bit domain in every run: records are compressed by the driver into affine/sawtooth pieces that TLC checks against the definition; the compression is trusted.",
    "C13": "Every entry of every table for every (n, psi), n = 2..2048: the text of each generated file is compared with the tables of its root computed by a filter (tab_scan.c), whatever it does not explain is compiled, dumped and judged by TLC; a sample of roots is always judged by TLC. The C compiler, filter and dump program are trusted.",
    "C14": "Every psi in 0..12299 for every power of two, every size in 0..6200 for one psi, argument classes (signs, wrap-around, leading zeros, no numbers) and counts.",
    "C15": "Guard pages detect accesses beyond either end that reach another page; arrays are placed at both ends and at sub-vector alignments.",
    "C16": "Sampled intervals with emphasis on boundaries of 12-bit periods and of 64 bits; oracle in 64-bit limbs in TLA+.",
    "C19": "State machine exhaustive for all small arrays; real code on all small arrays and on adversarial long ones.",
    "C20": "Traps only for operations executed; inputs constructed to maximise magnitudes. The model bounds all inputs.",
    "C21": "Histories sampled by TLC simulation; thread schedules sampled by running concurrently.",
    "C22": "The repository's own part of the verifier (the domain) is executed; Crab, Clam and LLVM 11 are not installed, so the interpreter around it is modelled only (VerifierMC) and the interval environments under it are a stand-in.",
    "C23": "Complete.",
    "C29": "Sequences of up to four different times per function, in orders that put the median at the boundary of two of them and outliers first, last and inside; the instruction that reads the counter is made to trap and is emulated.",
    "C28": "Triples: complete. Programs: single wrong coefficients in every product on every triple and at every position by various amounts, and wrong results that a weaker comparison (sum, parity, set of values, part of the array) would not notice: cancelling pairs, exchanged, rotated, negated coefficients, a product that stores nothing.",
    "C27": "Allocations go through the linker's --wrap into an allocator that fences each block up to size 64 (released blocks are inaccessible) and poisons them above; full traces up to about 3000 events, counts above.",
    "C26": "Faults: limits on file sizes, full device, names that cannot be opened, refused memory, and single failing system calls (through strace, where tracing is allowed). Completeness is relative to a run without faults, whose contents C13 judges.",
    "C25": "Inputs sampled with emphasis on extreme intermediate values; only the files linked into the programs, plus the size-1024 functions and generator beside them; not the other unused copies in that directory.",
    "C24": "Every assembly function for all sizes up to 2048 with several random register files each; registers the convention does not mention are not observed.",
}
for a, b in (("C02", "C01"), ("C03", "C01"), ("C04", "C01"), ("C06", "C05"), ("C07", "C05"), ("C08", "C05"), ("C11", "C09"),
             ("C17", "C16"), ("C18", "C16")):
    NOTE[a] = NOTE[b]
NOTE["C10"] = "All pairs of residues through special values and random operands in the whole documented product range; lengths 0 to 64 and the library sizes."
NOTE["C12"] = "All power-of-two sizes up to 65536; index-valued and random contents; all four tables complete."
NA = {}


def manifest(ids):
    cs, na = [], []
    for i in ids:
        if i in checks.CHECKS:
            cs.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                           technique=TECH[i], level="model_checking", level_note=NOTE[i]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    return dict(version=1, setup_cmd="python3 tools/setup.py", checks=cs, not_applicable=na,
                notes="No hooks in /repo: every observation goes through the public interface. Fixes are listed in known-findings.txt.")
