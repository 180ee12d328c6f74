"""Every property: what decides it, how much of it, and what the evidence says."""
import build as B
import core
import p_dims as D, p_err as E, p_geom as G, p_io as IO, p_rules as RU, p_san as SAN, p_sys as SYS, p_text as T


HARNESSES = {"plain": ("circle", "report"), "asan": ("selftest",), "dbg": ("selftest",), "fuzz": ("fuzz_script",), "count": ()}


class Units:
    """fn(env) is one unit of workload; quick/thorough: how many of them."""

    def __init__(self, fn, quick, thorough, rule, minimum, variants=("plain",), note=None, leaks=False, prepare=None,
                 after=None, level="exploration", assumptions=()):
        self.__dict__.update(locals())

    def run(self, prop, tier, seed, t0):
        n = self.quick if tier == "quick" else self.thorough
        bins = {v: B.build(v, HARNESSES[v]) for v in self.variants}
        runner = core.Runner(bins, leaks=self.leaks)
        extra = self.prepare(runner, tier, seed) if self.prepare else None
        units = core.run_units(prop, tier, seed, self.fn, n, runner, extra)
        cov = {}
        if self.after:
            o, cov = self.after(tier, seed)
            units.append((n, o))
        return core.finish(prop, tier, seed, t0, units, self.rule, self.minimum, note=self.note, level=self.level, extra_cov=cov,
                           assumptions=self.assumptions)


GEOM = ("models and views keep coordinates within a few thousand units and scales that land on or about the page",
        "positions are compared with what single precision arithmetic can give (a few units in the 6th significant digit)")
PSI = "the output is read by this framework's own PostScript interpreter (vt/ps.py), which knows the operators the program uses"

PROPS = {
    "C01": Units(
        SAN.c01, 1280, 16000,
        "documents from a grammar over the whole language plus token, byte, number, model and nesting mutations of them, run on the real program under "
        "ASan+UBSan+LSan (every report fatal) or valgrind, then a libFuzzer campaign on the same code; a run is non-trivial if its input is new (units) "
        "or it reached new coverage (fuzzer corpus)",
        500, variants=("plain", "asan", "dbg"), leaks=True, prepare=SAN.self_test, after=SAN.Fuzz((1500, 40), (150000, 1500)),
        assumptions=("'answers in finite time' is judged as: within minutes, for inputs up to some hundred kilobytes",
                     "RE2's own deliberate reads of uninitialised memory are not the program's", "script readable, output writable")),
    "C02": Units(
        IO.c02, 900, 12000,
        "valid and broken documents on healthy and failing files: every read, write and close of script, model and output is failed, cut short or "
        "interrupted at chosen points by an interposed libc; exit status, diagnostics and the output file are compared with a fault free run; "
        "non-trivial: a fault really was delivered, or the run was a fault free reference",
        300, prepare=IO.fault_lib, level="fault_enumeration",
        assumptions=("an unreadable script or a path where no output can be created ends the program by design (not claimed)", "faults are errors the operating system reports")),
    "C03": Units(
        E.c03, 3000, 60000,
        "documents with one planted mistake of a known kind at a known place; the refusal must name that place; non-trivial: distinct (kind, document)", 1000,
        assumptions=("the place is a span on the offending construct's own line(s), not an exact wording",)),
    "C04": Units(
        T.c04, 2000, 40000,
        "whole documents (extreme numbers, hostile strings, degenerate models included), interpreted as PostScript by a stack checking interpreter, and their "
        "structuring comments checked; non-trivial: distinct documents that drew something", 1000, assumptions=(PSI, "user formats have small field widths")),
    "C05": Units(
        T.c05, 5000, 100000, "strings of arbitrary bytes in every way of writing a literal and every place that shows one, read back from the interpreted page; "
        "non-trivial: distinct string and place", 2000, assumptions=(PSI,)),
    "C06": Units(
        D.c06, 4000, 80000, "dim annotations with random points, directions, views, scales and formats; the label on the page must be the distance computed "
        "independently; non-trivial: distinct annotation", 1500, assumptions=GEOM + (PSI,)),
    "C07": Units(
        D.c07, 4000, 80000, "angle annotations with random arms, views, scales and formats; label and arc must be the angle computed independently; "
        "non-trivial: distinct annotation", 1500, assumptions=GEOM + (PSI,)),
    "C08": Units(
        D.c08, 1200, 24000, "dia and rad annotations on models with circular features (and noise round them); label and leader must fit the known circle; "
        "non-trivial: distinct annotation", 500, assumptions=GEOM + (PSI,)),
    "C09": Units(
        D.c09, 3000, 60000, "near() and center() against a brute force search of the model's corners, judged through what is drawn; non-trivial: distinct query", 1000,
        assumptions=GEOM + (PSI, "queries where two corners are nearest within rounding may answer either")),
    "C10": Units(
        G.c10, 1200, 24000, "scenes of disjoint solids from random views, every edge sampled along its length and ray traced against every facet independently; "
        "non-trivial: distinct scene with both hidden and visible stretches", 400, assumptions=GEOM + (PSI, "bodies are closed and do not intersect one another",
        "samples within a few thousandths of a unit of an outline are not judged")),
    "C11": Units(
        G.c11, 900, 18000, "solids with planar facets cut into triangles in different ways and orders; what is drawn must be the same figure and only sharp or outline "
        "edges; non-trivial: distinct solid", 300, assumptions=GEOM + (PSI,)),
    "C12": Units(
        G.c12, 4000, 80000, "pairs of draws that differ in scale, place or origin, compared through the affine map the language promises; non-trivial: distinct draw", 1500,
        assumptions=GEOM + (PSI,)),
    "C13": Units(
        G.c13, 5000, 80000, "the six named views and turned view matrices against an independent projection; non-trivial: distinct draw", 1500, assumptions=GEOM + (PSI,)),
    "C14": Units(
        IO.c14, 3000, 60000, "STL files in many spellings of the same facets, and files made malformed in one known way; non-trivial: distinct file", 1000,
        assumptions=GEOM + (PSI, "solid names are UTF-8", "an STL file that is empty is an empty model; blank lines, tabs and capitals are not judged")),
    "C15": Units(
        IO.c15, 4000, 60000, "directory trees with differently sized models of the same name and random search paths; which file was read shows as the size drawn; "
        "non-trivial: distinct tree and path", 1000, assumptions=(PSI, "names without commas in --load_path")),
    "C16": Units(
        IO.c16, 1800, 30000, "the same document written in different spellings (spaces, comments, literals, argument order) must give the same bytes; "
        "non-trivial: distinct pair of spellings", 600),
    "C17": Units(
        IO.c17, 1800, 30000, "the same document run again, elsewhere, with other environments and with pages and draws added, dropped and permuted; each page must depend on "
        "itself alone; non-trivial: distinct document", 600),
    "C18": Units(
        E.c18, 2500, 40000, "mistakes at known lines and columns (after multi-line strings and comments, wide characters, long lines) and direct calls of the reporter; the "
        "file:line:column printed must be that place; non-trivial: distinct report", 1000,
        note="the direct part needs harness/report.cc to compile against the tree; where it does not, only the program's own reports are judged"),
    "C19": Units(
        E.c19, 2000, 40000, "point sets with a known best circle (exact, noisy, collinear, far away, degenerate, non-finite) given to the real fitting function; judged "
        "against an independent double precision fit; non-trivial: distinct point set", 800,
        assumptions=("'the circle' is the algebraic least squares fit the code documents",)),
    "C20": Units(
        T.c20, 2500, 40000, "page furniture under every combination of flags, names and titles, with a fake clock (any moment from 1902 to 2106, any zone) in place of the "
        "real one; non-trivial: distinct run", 800, prepare=T.fake_clock, assumptions=(PSI, "the zone is a fixed offset from a tz file made by the check")),
    "C21": Units(
        D.c21, 4000, 80000, "dim annotations: where extension lines, dimension line, arrow heads and label are; non-trivial: distinct annotation", 1500, assumptions=GEOM + (PSI,)),
    "C22": Units(
        D.c22, 3000, 60000, "angle, dia and rad annotations: where arms, arc, leader, arrow head and label are; non-trivial: distinct annotation", 1000,
        assumptions=GEOM + (PSI,)),
    "C23": Units(
        RU.c23, 2000, 20000, "random workspaces with source, generated and external models built by the real Bazel rules' code in a small stand-in for Bazel that runs every "
        "action with its declared inputs alone; the result must be what the program makes directly; non-trivial: distinct build", 500,
        assumptions=("rule.bzl is run as Python, with Bazel's documented ctx and sandbox behaviour imitated", "ps2pdf and openscad are stand-ins that copy")),
    "C24": Units(
        SYS.c24, 1500, 20000, "documents run in made up directories under strace, over old outputs and links, through pipes, and several at once; every system call that "
        "touches a file, a process or the network is judged and the tree is compared before and after; non-trivial: distinct run", 500,
        prepare=SYS.strace_works, assumptions=("files of the system (under /lib, /usr, /etc, /proc, /dev) may be read", "the script's directory is not changed by others meanwhile")),
    "C25": Units(
        SYS.c25, 4 * len(SYS.SCEN), 20 * len(SYS.SCEN), "inputs that grow in one of %d ways; control flow edges passed (or, in a third, all instructions as valgrind counts "
        "them) and peak memory of runs on twice as much are compared; non-trivial: distinct way "
        "and size" % len(SYS.SCEN), 100, variants=("plain", "count"),
        assumptions=("'about twice' is judged as below 2.7 times, 'square' as below 5 times",)),
}
