"""C01: no memory error, undefined behaviour, leak, abort or hang, whatever the input."""
import hashlib, math, os, re, shutil, subprocess, tempfile
import numpy as np
import build as B
import gen as G, ref as R
import p_dims as D
import p_io, p_text
import core
import docs
from docs import S
from common import *

SELF = {"overflow": b"heap-buffer-overflow", "uaf": b"heap-use-after-free", "leak": b"LeakSanitizer", "signed": b"signed integer overflow",
        "cast": b"outside the range of representable values", "stack": b"stack-buffer-overflow"}


VALGRIND = ("valgrind", "-q", "--error-exitcode=97", "--undef-value-errors=yes",
            "--suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "re2.supp"))


def self_test(runner, tier, seed):
    """Every kind of report this rests on, provoked."""
    exe = runner.bins["asan"] + "/selftest"
    env = dict(os.environ, **core.SAN_ENV)
    env["ASAN_OPTIONS"] = core.SAN_ENV["ASAN_OPTIONS"] % 1
    for k, want in SELF.items():
        p = subprocess.run([exe, k], env=env, capture_output=True, timeout=60)
        if p.returncode == 0 or want not in p.stderr:
            raise core.Inconclusive(f"the sanitizers don't notice '{k}' here: rc={p.returncode} {p.stderr[-300:]!r}")
    if subprocess.run([exe, "none"], env=env, capture_output=True, timeout=60).returncode:
        raise core.Inconclusive("the sanitizers complain about nothing")
    x = runner.bins["dbg"] + "/selftest"
    p = subprocess.run([*VALGRIND, x, "uninit"], capture_output=True, timeout=120)
    if p.returncode != 97:
        raise core.Inconclusive("valgrind doesn't notice uninitialised memory here")
    return {"self": len(SELF) + 2}


def why(r):
    """What went wrong, out of the report."""
    e = r.err
    m = re.search(rb"(SUMMARY: [^\n]*|runtime error: [^\n]*|Check failed[^\n]*|terminate called[^\n]*|[Ss]tack.overflow[^\n]*)", e)
    s = (m[1] if m else e[-300:]).decode("latin-1")
    return s


def verdict(env, r, case, what):
    if r.timeout:
        env.o.bad("hang", f"{what}: no answer in 90 and again in 180 seconds", case)
        return False
    if r.rc not in (0, 1) or b"Sanitizer" in r.err or b"runtime error:" in r.err or b"Check failed" in r.err:
        env.o.bad("crash-" + hashlib.sha256(re.sub(r"0x[0-9a-f]+|\d+", "", why(r)).encode()).hexdigest()[:6],
                  f"{what}: rc={r.rc}: {why(r)}", case)
        return False
    env.o.inc("accepted" if r.rc == 0 else "refused")
    return True


TOKENS = [b"page", b"draw", b"text", b"load", b"dim", b"angle", b"dia", b"rad", b"{", b"}", b"[", b"]", b"(", b")", b";", b",", b":", b"=", b"@",
          b"near", b"center", b"at", b"from", b"to", b"dir", b"from_dir", b"to_point", b"apex", b"fmt", b"scale", b"view", b"name", b'"Z+"', b'"x"',
          b'"%.3f"', b'"%s%n"', b'"%*f"', b'"%1$f"', b'"%9f"', b"0", b"-1", b"1.5", b"[0,0,0]", b"[1,2]", b"1:2", b"m", b"zz"]


def mutate_tokens(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        k = rng.randrange(7)
        i = rng.randrange(len(toks)) if toks else 0
        if k == 0 and toks:
            del toks[i]
        elif k == 1:
            toks.insert(i, rng.choice(TOKENS))
        elif k == 2 and toks:
            toks[i] = rng.choice(TOKENS)
        elif k == 3 and toks:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4 and toks:
            j = min(len(toks), i + rng.randint(1, 30))
            toks[i:i] = toks[i:j]
        elif k == 5 and toks:
            j = min(len(toks), i + rng.randint(1, 30))
            del toks[i:j]
        elif toks:
            nums = [q for q, x in enumerate(toks) if re.fullmatch(rb"[-+]?[0-9.]+", x)]
            if nums:
                toks[rng.choice(nums)] = rng.choice(p_text.EXTREME + ["-5", "3.5", "0.00001", "9" * 38, "9" * 39]).encode()
    return toks


def everything(rng):
    """Tokens of a short document that has every construct in it, in some order."""
    V = lambda n: b"[ " + b" , ".join(rng.choice([b"0", b"1", b"-2.5", b".25"]) for _ in range(n)) + b" ]"

    def pt(deep=2):
        k = rng.random()
        return V(3) if k < .25 or not deep else (b"near ( " if k < .7 else b"center ( ") + pt(deep - 1) + b" )"

    def note(kind):
        a = {b"dim": [b"from = " + pt(), b"to = " + pt(), b"dir = " + V(3)],
             b"angle": [b"apex = " + pt(), rng.choice([b"from_dir = " + V(3), b"from_point = " + pt()]),
                        rng.choice([b"to_dir = " + V(3), b"to_point = " + pt()])],
             b"dia": [b"center = " + pt(), b"dir = " + V(3)], b"rad": [b"center = " + pt(), b"dir = " + V(3)]}[kind]
        a += [b"at = " + pt()] + ([b'fmt = "%.2f" "x"'] if rng.random() < .7 else [])
        rng.shuffle(a)
        return kind + b" ( " + b" , ".join(a) + b" ) ;"

    notes = [note(k) for k in (b"dim", b"angle", b"dia", b"rad")]
    rng.shuffle(notes)
    parts = [b"scale = 1 : 2 ;", b"@ " + V(2) + b" ;", rng.choice([b'view = "X" "+" ;', b"view = " + V(2) + b" ;"]), *notes[:rng.randint(2, 4)]]
    rng.shuffle(parts)
    items = [b'name = "a" "b" ;', b'text [ "t" "u" ] { @ ' + V(2) + b" ; }", b"draw m { " + b" ".join(parts) + b" }"]
    rng.shuffle(items)
    return (b'load m = "m.stl" ; page { ' + b" ".join(items) + b" } page { }").split()


def break_at(rng, toks):
    """Correct up to some place, wrong from there on."""
    i = rng.randrange(len(toks) + 1)
    k = rng.randrange(4)
    if k == 0:
        return toks[:i]
    if k == 1:
        return toks[:i] + [rng.choice([b";", b",", b")", b"]", b"}", b"(", b"[", b"{", b"=", b":", b"@", b"zz", b"1", b'"s"', b"page", b"near", b"?"])] + toks[i:]
    if k == 2:
        return toks[:i] + toks[i + 1:]
    return toks[:i] + [rng.choice(TOKENS)] + toks[i + 1:]


def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 2, 5, 20])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(5)
        if k == 0 and i < len(b):
            b[i] = rng.randrange(256)
        elif k == 1:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 8)))
        elif k == 2:
            del b[i:i + rng.randint(1, 20)]
        elif k == 3 and i < len(b):
            b[i] ^= 1 << rng.randrange(8)
        else:
            b[i:i] = rng.choice([b'"', b"\\", b"\\\n", b"\r", b"\0", b"//", b"\\n", b'\\"', b"\xff" * 40, b"(" * 30])
    return bytes(b)


def big_thing(rng):
    """(script, files): something large in one respect."""
    m = {"m.stl": G.stl(G.prism(G.ngon(0, 0, 1, 8), 0, 1))}
    k = rng.randrange(12)
    n = rng.choice([900, 999, 1000, 1001, 2000, 20000, 200000])
    if k == 0:
        return b"load m=\"m.stl\"; page{draw m{dim(at=" + b"near(" * n + b"[0,0,0]" + b")" * n + b",from=[0,0,0],to=[1,1,1],dir=[1,0,0]);}}", m
    if k == 1:
        return b"page{}" * min(n, 3000), m
    if k == 2:
        return b'page{text["' + b"x" * n * 5 + b'"]{}}', m
    if k == 3:
        return b'page{text[' + b'"a\\n"' * min(n, 20000) + b']{}}', m
    if k == 4:
        return b'load m="m.stl";page{draw m{' + b"dim(at=[0,0,0],from=[0,0,0],to=[1,1,1],dir=[1,0,0]);" * min(n, 2000) + b"}}", m
    if k == 5:
        return b"page{" + b"a=1;" * min(n, 5000) + b"}", m
    if k == 6:
        return rng.choice([b"{", b"(", b"[", b"page{", b"near(", b"draw x{"]) * n, m
    if k == 7:
        f = rng.choice([b"%.99f", b"%99.9f", b"%.300f", b"%400.1f", b"%.1000f"])
        return b'load m="m.stl";page{draw m{dim(at=[0,0,0],from=[0,0,0],to=[1,1,1],dir=[1,0,0],fmt="' + f + b'");}}', m
    if k == 8:
        ids = [b"load m%d=\"m.stl\";" % i for i in range(min(n, 300))]
        return b"".join(ids) + b"page{" + b"".join(b"draw m%d{}" % i for i in range(min(n, 300))) + b"}", m
    if k == 9:
        # a fine circle, or a great many corners
        n = rng.choice([200, 513, 600, 1100, 1100, 2100])
        p = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0) for i in range(n)]
        t = [np.array([(0, 0, 0) if rng.random() < .5 else p[0], p[i], p[(i + 1) % n]]) for i in range(1, n - 1)]
        return (b'load m="m.stl";page{draw m{scale=%d:%d;dia(at=[2,0,0],dir=[1,0,0],center=[1,0,0]);rad(at=[2,0,0],dir=[1,0,0],center=center([1,0,0]));'
                b'dim(at=[0,0,0],from=near([0,0,0]),to=center([0,1,0]),dir=[1,0,0]);}}' % (rng.choice([1, 10 ** 9]), rng.choice([1, 7]))), {"m.stl": G.stl(t)}
    i = rng.choice([b"a" * n, b"_" * n, b"page" * (n // 4)])
    return b"load " + i + b'="m.stl";page{draw ' + i + b"{}}", m


def scale_numbers(text, f):
    return re.sub(r"(?m)^(\s*vertex)(.*)$", lambda m: m[1] + "".join(" " + repr(float(x) * f).replace("e+", "e") for x in m[2].split()), text)


def c01(env):
    rng = env.rng
    i = env.index
    if i % 25 == 3:
        return valgrind_one(env)
    doc, files = docs.document(rng)
    W = docs.Writer(rng if rng.random() < .4 else None)
    src = W.doc(doc)
    k = i % 8
    flags = rng.choice([[], QUIET])
    if k == 0:
        what = "a valid document"
    elif k == 1:
        what = "a document broken somewhere"
        files = {"m.stl": files[min(files)]}
        src = b" ".join(break_at(rng, everything(rng)))
    elif k == 2:
        what = "a document with tokens changed"
        src = b" ".join(mutate_tokens(rng, W.t))
    elif k == 3:
        what = "a document with bytes changed"
        src = mutate_bytes(rng, src)
    elif k == 4:
        what = "a degenerate document"
        for f in files:
            if rng.random() < .7:
                files[f] = p_text.nasty_model(rng)
                if rng.random() < .4:
                    files[f] = scale_numbers(files[f], rng.choice([1e-300, 1e-160, 1e-40, 1e20, 1e39, 1e80, 1e155, 1e300]))
        p_text.extreme(rng, doc)
        src = docs.plain(doc)
    elif k == 5:
        what = "a damaged model"
        for f in files:
            t = files[f]
            if rng.random() < .5:
                t = p_io.malform(rng, t, rng.choice(p_io.MALFORM))
            if rng.random() < .5:
                t = mutate_bytes(rng, t.encode("latin-1"))
            files[f] = t if isinstance(t, bytes) else t.encode("latin-1")
    elif k == 6:
        what = "a document with a mistake"
        src, _ = p_io.break_doc(rng, doc, files)
    else:
        what = "an oversized document"
        src, files = big_thing(rng)
    case = Case(src, files, flags, variant="asan")
    try:
        r = env.run(case)
    except core.Inconclusive:
        # slow is not the same as stuck: ask the plain build before saying so
        c2 = Case(src, files, flags)
        r = env.runner.run(c2, timeout=200)
        if r.timeout:
            env.o.bad("hang", f"{what}: no answer in minutes", case)
            return
        raise
    if not verdict(env, r, case, what):
        return
    if k == 0 and r.rc:
        env.o.bad("refused", f"{what} was refused: {r.err[-300:]!r}", case)
        return
    env.o.inc("runs under ASan, UBSan and LSan")
    env.o.inc(what)
    env.o.note(case.digest())
    env.o.sample(what + ": " + src.decode("latin-1")[:600])


def valgrind_one(env):
    rng = env.rng
    doc, files = docs.document(rng, pages=rng.choice([1, 2]))
    k = rng.randrange(3)
    src = docs.plain(doc)
    if k == 1:
        for f in files:
            files[f] = p_text.nasty_model(rng)
        p_text.extreme(rng, doc)
        src = docs.plain(doc)
    elif k == 2:
        src, _ = p_io.break_doc(rng, doc, files)
    case = Case(src, files, QUIET, variant="dbg")
    r = env.run(case, timeout=200, wrapper=VALGRIND)
    if r.rc not in (0, 1):
        m = re.findall(rb"==\d+== ([A-Z][^\n]*)", r.err)
        env.o.bad("valgrind", f"rc={r.rc}: {m[:3] or r.err[-300:]!r}", case)
        return
    env.o.inc("runs under valgrind")
    env.o.note(case.digest())


# ------------------------------------------------------------------ the fuzzer
def fuzz_job(args):
    exe, runs, seed, secs, root = args
    d = tempfile.mkdtemp(prefix="fz", dir=root)
    try:
        import random
        rng = random.Random(f"fuzz/{seed}")
        os.makedirs(d + "/in")
        os.makedirs(d + "/cwd")
        for k in range(60):
            doc, files = docs.document(rng, models=1, pages=1, max_draws=2)
            n = doc["models"][0]
            doc["models"], doc["file"] = [n], {n: "m.stl"}
            src = docs.plain(doc)
            with open(f"{d}/in/{k}", "wb") as f:
                f.write(src + b"\n%%%%\n" + files[n + ".stl"].encode())
        with open(d + "/dict", "wb") as f:
            for t in TOKENS + [b"solid", b"endsolid", b"facet normal 0 0 1", b"outer loop", b"endloop", b"endfacet", b"vertex 0 0 0", b"1e300", b"1e-300",
                               b"%%%%", b"\\n"]:
                f.write(b'"' + b"".join(b"\\x%02x" % c for c in t) + b'"\n')
        env = dict(os.environ, **core.SAN_ENV)
        env["ASAN_OPTIONS"] = core.SAN_ENV["ASAN_OPTIONS"] % 1
        p = subprocess.run([exe, f"-runs={runs}", f"-seed={seed}", f"-max_total_time={secs}", "-max_len=16000", "-timeout=60", "-rss_limit_mb=4000",
                            f"-dict={d}/dict", f"-artifact_prefix={d}/art-", "-print_final_stats=1", "-verbosity=1", d + "/in"],
                           cwd=d + "/cwd", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs * 3 + 300)
        err = p.stderr
        cov = re.findall(rb"cov: (\d+) ft: (\d+)", err)
        n = re.search(rb"stat::number_of_executed_units:\s*(\d+)", err)
        units = os.listdir(d + "/in")
        art = None
        for a in os.listdir(d):
            if a.startswith("art-"):
                art = (a, open(f"{d}/{a}", "rb").read())
        return p.returncode, err[-6000:], int(n[1]) if n else 0, max((int(a) for a, _ in cov), default=0), max((int(b) for _, b in cov), default=0), \
            [hashlib.sha256(u.encode()).digest()[:8] for u in units], art
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Fuzz:
    """Runs after the units: a coverage guided search for anything the sanitizers object to."""

    def __init__(self, quick, thorough):
        self.quick, self.thorough = quick, thorough

    def __call__(self, tier, seed):
        runs, secs = self.quick if tier == "quick" else self.thorough
        exe = B.build("fuzz", ("fuzz_script",)) + "/fuzz_script"
        o = core.Obs()
        if not os.path.exists(exe):
            o.inc("fuzz target not buildable on this tree")
            return o, {}
        import multiprocessing
        with multiprocessing.get_context("fork").Pool(8) as pool:
            res = pool.map(fuzz_job, [(exe, runs, seed * 1000 + j + 1, secs, core.SCRATCH_ROOT) for j in range(8)])
        cov = {"fuzz_executions": sum(r[2] for r in res), "fuzz_edges": max(r[3] for r in res), "fuzz_features": max(r[4] for r in res)}
        o.runs += cov["fuzz_executions"]
        for rc, err, n, c, f, units, art in res:
            o.nontrivial += units
            if art is None and rc == 0:
                continue
            if art is None:
                o.inconclusive.append(f"the fuzzer ended with {rc}: {err[-400:]!r}")
                continue
            parts = (art[1].split(b"\n%%%%\n") + [b"", b""])[:3]
            case = Case(parts[0], {"m.stl": parts[1], "n.stl": parts[2]}, QUIET, variant="asan")
            if art[0].startswith("art-timeout") or art[0].startswith("art-slow") and rc == 0:
                if art[0].startswith("art-slow"):
                    continue
            class Fake:
                pass
            r = Fake()
            r.err = err
            o.bad("fuzz-" + art[0].split("-")[1], f"found by the fuzzer: {why(r)}", case)
        return o, cov
