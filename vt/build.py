"""Builds the real stl-to-ps program from /repo's current working tree.

Nothing is written to /repo.  A build goes to /verif/.build/<variant>-<hash of
every input>, so a change of the tree always gives a new build, and an unchanged
tree can reuse one that is there.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SRC = os.path.join(REPO, "stl-to-ps")
CACHE = os.path.join(VERIF, ".build")
SHIM = os.path.join(VERIF, "shim")
HARN = os.path.join(VERIF, "harness")


class BuildError(Exception):
    pass


VARIANTS = {
    # as a user builds it
    "plain": dict(cxx="g++", flags=["-O1", "-g0"], link=[]),
    # memory errors, leaks, undefined behaviour; every report is fatal
    "asan": dict(
        cxx="clang++",
        flags=["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
               "-fsanitize=address,undefined,float-cast-overflow",
               "-fno-sanitize=vptr",
               "-fno-sanitize-recover=all"],
        link=["-fsanitize=address,undefined"]),
    # the same with coverage feedback, for the in-process fuzzer
    "fuzz": dict(
        cxx="clang++",
        flags=["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
               "-fsanitize=address,undefined,float-cast-overflow,fuzzer-no-link",
               "-fno-sanitize=vptr",
               "-fno-sanitize-recover=all"],
        link=["-fsanitize=address,undefined"], hlink=["-fsanitize=address,undefined,fuzzer"]),
    # counts the steps a run takes (harness/workcount.cc)
    "count": dict(cxx="clang++", flags=["-O1", "-g0", "-fsanitize-coverage=edge,trace-pc"], link=[], runtime="workcount"),
    # uninitialised reads are decided by valgrind on this one
    "dbg": dict(cxx="g++", flags=["-O1", "-g"], link=[]),
}
EXC = {"parser.cc", "parser.tab.cc", "lexer.yy.cc"}


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def lib_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, "*.cc"))):
        b = os.path.basename(f)
        if b.endswith("_test.cc") or b == "test_main.cc":
            continue
        out.append(f)
    return out


def _hash(variant, extra):
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], extra)).encode())
    files = sorted(glob.glob(os.path.join(SRC, "*")))
    for root in (SHIM, HARN):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def build(variant="plain", harnesses=()):
    """-> directory holding `stl-to-ps` and each harness binary asked for
    (a harness that does not compile against this tree is simply absent, with
    <name>.err saying why)."""
    harnesses = tuple(sorted(harnesses))
    key = _hash(variant, harnesses)
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, f"{variant}-{key}")
    with open(os.path.join(CACHE, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, "ok")):
            os.utime(dst)
            return dst
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
        try:
            _build_into(tmp, variant, harnesses)
            open(os.path.join(tmp, "ok"), "w").close()
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            os.rename(tmp, dst)
        finally:
            if os.path.isdir(tmp):
                shutil.rmtree(tmp, ignore_errors=True)
        _prune(keep=dst)
    return dst


def _prune(keep):
    ds = [d for d in glob.glob(os.path.join(CACHE, "*-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[12:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def _build_into(tmp, variant, harnesses):
    v = VARIANTS[variant]
    gen = os.path.join(tmp, "gen", "stl-to-ps")
    os.makedirs(gen)
    _run(["bison", "-Wno-deprecated", f"--defines={gen}/parser.tab.h", "-o", f"{gen}/parser.tab.cc",
          os.path.join(SRC, "parser.y")])
    _run(["flex", f"--header-file={gen}/lexer.yy.h", "-o", f"{gen}/lexer.yy.cc",
          os.path.join(SRC, "lexer.l")])
    inc = ["-std=c++17", "-w", "-DEIGEN_INITIALIZE_MATRICES_BY_ZERO", f"-I{SHIM}",
           f"-I{tmp}/gen", f"-I{REPO}", "-isystem", "/usr/include/eigen3"]
    # what the tree uses now, and what a change to it may well use
    libs = ["-Wl,--as-needed", *_run(["pkg-config", "--libs", "absl_flags", "absl_flags_parse",
            "absl_strings", "absl_str_format", "absl_time", "absl_memory", "absl_status", "absl_statusor",
            "absl_flat_hash_map", "absl_flat_hash_set", "absl_node_hash_map", "absl_btree", "absl_hash", "absl_cord",
            "absl_inlined_vector", "absl_fixed_array", "absl_synchronization"]).split(), "-l:libre2.so.10"]
    jobs = [(f, None) for f in lib_sources()]
    jobs += [(f"{gen}/parser.tab.cc", None), (f"{gen}/lexer.yy.cc", None)]
    jobs += [(os.path.join(HARN, h + ".cc"), h) for h in harnesses]
    rt = []
    if "runtime" in v:
        rt = [os.path.join(tmp, "rt_runtime.o")]
        _run([v["cxx"], "-O2", "-c", os.path.join(HARN, v["runtime"] + ".cc"), "-o", rt[0]])

    def comp(job):
        f, h = job
        b = os.path.basename(f)
        o = os.path.join(tmp, ("h_" if h else "") + b[:-3] + ".o")
        exc = "-fexceptions" if (b in EXC or h) else "-fno-exceptions"
        fl = [x for x in v["flags"]]
        try:
            _run([v["cxx"], *inc, *fl, exc, "-c", f, "-o", o])
        except BuildError as e:
            if h:
                open(os.path.join(tmp, h + ".err"), "w").write(str(e))
                return h, None
            raise
        return h, o

    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if j[0].endswith(
        ("stl-to-ps/stl-to-ps.cc", "parser.tab.cc")) else 0))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, jobs))
    objs = [o for h, o in res if not h]
    mains = [o for o in objs if os.path.basename(o) == "stl-to-ps-main.o"]
    lib = [o for o in objs if o not in mains]
    if not mains:
        raise BuildError("no stl-to-ps-main.cc")
    _run([v["cxx"], *v["link"], "-o", f"{tmp}/stl-to-ps", *mains, *lib, *rt, *libs])

    def link(ho):
        h, o = ho
        try:
            _run([v["cxx"], *v.get("hlink", v["link"]), "-o", f"{tmp}/{h}", o, *lib, *rt, *libs])
        except BuildError as e:
            open(os.path.join(tmp, h + ".err"), "w").write(str(e))

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, [(h, o) for h, o in res if h and o]))
    for o in glob.glob(f"{tmp}/*.o"):
        os.unlink(o)


if __name__ == "__main__":
    import time
    for a in sys.argv[1:] or ["plain", "asan"]:
        t = time.time()
        print(build(a), round(time.time() - t, 1))
