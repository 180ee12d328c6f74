"""C02, C14..C17: files in, files out, and what must not matter."""
import math, os, re, resource, subprocess, tempfile
import numpy as np
import gen as G, ref as R, ps as PS
import p_dims as D
import docs
from docs import S
from common import *

TIME = re.compile(rb"^(% Time:)[^\n]*$", re.M)


def sans_time(b):
    return TIME.sub(rb"\1", b, count=1)


# ------------------------------------------------------------------ C02
FAULTS = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
/* Faults on one file, named by FI_FILE (base name): operation FI_OP number FI_AT
   (0 based) fails with errno FI_ERR, and all later ones too if FI_STAY is set;
   FI_SHORT: never more than that many bytes at once; FI_INTR: every other
   operation is interrupted first.  What happened goes to fd FI_LOG. */
static int is_ours(int fd) {
  const char *want = getenv("FI_FILE");
  char p[64], b[4096];
  if (!want) return 0;
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  const char *s = strrchr(b, '/');
  return s && !strcmp(s + 1, want);
}
static long num(const char *n, long d) { const char *s = getenv(n); return s && *s ? atol(s) : d; }
static void note(const char *s) {
  const char *l = getenv("FI_LOG");
  if (!l) return;
  int fd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0666);
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (fd >= 0) { w(fd, s, strlen(s)); close(fd); }
}
static int fault(const char *op) {
  static long n_w, n_r, n_c, intr;
  const char *o = getenv("FI_OP");
  if (num("FI_INTR", 0) && *op != 'c' && (intr++ & 1) == 0) { note("i"); return EINTR; }
  long *c = *op == 'w' ? &n_w : *op == 'r' ? &n_r : &n_c;
  long k = (*c)++;
  note(*op == 'w' ? "W" : *op == 'r' ? "R" : "C");
  if (!o || *o != *op) return 0;
  long at = num("FI_AT", 0);
  if (k == at || (k > at && num("FI_STAY", 0))) { note("!"); return (int)num("FI_ERR", EIO); }
  return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (is_ours(fd)) {
    int e = fault("w");
    if (e) { errno = e; return -1; }
    long s = num("FI_SHORT", 0);
    if (s && n > (size_t)s) n = s;
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static ssize_t (*real)(int, const struct iovec *, int);
  if (!real) real = dlsym(RTLD_NEXT, "writev");
  if (is_ours(fd)) {
    long s = num("FI_SHORT", 0);
    if (s) {
      for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    int e = fault("w");
    if (e) { errno = e; return -1; }
  }
  return real(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  if (is_ours(fd)) {
    int e = fault("r");
    if (e) { errno = e; return -1; }
    long s = num("FI_SHORT", 0);
    if (s && n > (size_t)s) n = s;
  }
  return real(fd, b, n);
}
int fclose(FILE *f) {
  static int (*real)(FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fclose");
  int e = is_ours(fileno(f)) ? fault("c") : 0;
  int r = real(f);
  if (e) { errno = e; return EOF; }
  return r;
}
"""


def fault_lib(runner, tier, seed):
    import core
    d = tempfile.mkdtemp(prefix="fi", dir=core.SCRATCH_ROOT)
    with open(d + "/f.c", "w") as f:
        f.write(FAULTS)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", d + "/f.so", d + "/f.c", "-ldl"], check=True)
    return {"so": d + "/f.so"}


def break_doc(rng, doc, files):
    """Something wrong in a valid document -> script bytes (and files changed)."""
    src = docs.plain(doc)
    k = rng.randrange(9)
    if k == 0:
        cut = rng.randint(0, len(src) - 2)
        bad = src[:cut] + rng.choice([b" $ ", b" } ", b" ; ; ", b' "never closed\n', b" ] ", b" 3 page "]) + src[cut:]
        return bad, "syntax?"
    if k == 1:
        return src + b"page { frobnicate = 3; }\n", "unknown property"
    if k == 2:
        return src + b"page { draw no_such_model { } }\n", "unknown model"
    if k == 3:
        return src + b'load zz_missing = "no/such/file.stl";\n', "missing file"
    if k == 4:
        files["zz_bad.stl"] = "solid x\n  facet abnormal 0 0 1\nendsolid x\n"
        return b'load zz_bad = "zz_bad.stl";\n' + src, "malformed model"
    if k == 5:
        n = doc["models"][0]
        return src + f"page {{ draw {n} {{ dim(at = [0,0,0], from = [0,0,0], to = [1,1,1]); }} }}\n".encode(), "missing property"
    if k == 6:
        n = doc["models"][0]
        return src + f'page {{ draw {n} {{ view = "W+"; }} }}\n'.encode(), "unknown view"
    if k == 7:
        return src + b'page { name = "a"; name = "b"; }\n', "duplicate property"
    n = doc["models"][0]
    return src + f'load {n} = "{n}.stl";\n'.encode(), "model loaded twice"


STAMP = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def complete(out, want):
    return out is not None and STAMP.sub(b"T", out) == STAMP.sub(b"T", want)


def c02(env):
    rng = env.rng
    k = env.index % 8
    doc, files = docs.document(rng, simple_fmt=rng.random() < .5)
    flags = rng.choice([[], QUIET])
    src = docs.plain(doc)
    old = rng.choice([None, b"old", b"% an old drawing\nshowpage\n" * rng.choice([1, 2000])])
    f2 = dict(files)
    if old is not None:
        f2["o.ps"] = old
    if k == 0:
        # accepted: all of it, and nothing else
        case = Case(src, files, flags)
        r0 = env.expect_ok(case, "a valid document")
        if not r0:
            return
        if len(r0.pages()) != len(doc["pages"]):
            env.o.bad("incomplete", f"{len(r0.pages())} of {len(doc['pages'])} pages but exit status 0", case)
            return
        case = Case(src, f2, flags)
        r = env.run(case)
        if not r.ok or not complete(r.out, r0.out):
            env.o.bad("overwrite", f"writing over an existing file gave rc={r.rc} and {len(r.out or b'')} bytes, not the "
                      f"{len(r0.out)} of the drawing", case)
            return
        env.o.inc("complete drawings")
    elif k in (1, 2):
        # refused: status 1 and no drawing
        bad, what = break_doc(rng, doc, f2)
        case = Case(bad, f2, flags)
        r = env.run(case)
        if what == "syntax?" and r.ok:
            # that happened to be harmless (inside a comment or string)
            pg = r.pages()
            env.o.inc("harmless edits")
            return
        if r.rc != 1:
            env.o.bad("status", f"{what}: exit status {r.rc}, not 1: {r.err[-200:]!r}", case)
            return
        if r.out and r.out != old:
            env.o.bad("leftover", f"{what}: refused, but {len(r.out)} bytes of drawing were left behind: {r.out[:80]!r}", case)
            return
        if not r.err.strip():
            env.o.bad("mute", f"{what}: refused without a word", case)
            return
        env.o.inc("refused: " + what)
    elif k == 3:
        # flags that are needed
        which = rng.choice([["--script=s.script"], ["--output=o.ps"], [], ["--script=", "--output=o.ps"],
                            ["--script=s.script", "--output="], ["--nosuchflag", "--script=s.script", "--output=o.ps"]])
        case = Case(src, files, which + flags, default_flags=False)
        r = env.run(case)
        if r.rc != 1 or r.out:
            env.o.bad("flags", f"{which}: exit status {r.rc} and output {r.out[:60] if r.out else r.out!r}", case)
            return
        env.o.inc("calls without the needed flags")
    else:
        base = Case(src, files, flags)
        r0 = env.expect_ok(base, "a valid document")
        if not r0:
            return
        want = r0.out
        if k == 4:
            # the medium is full
            r = env.run(base, output="/dev/full")
            if r.rc == 0:
                env.o.bad("full", "writing to a full device is reported as success", base)
                return
            env.o.inc("full device")
            n = len(want)
            for lim in sorted({0, 1, n - 1, n, n + 1, rng.randint(0, n), rng.randint(0, n), 8191 % n, 8192 % n, 4096 % n}):
                def pre(lim=lim):
                    import signal
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                r = env.run(base, preexec=pre)
                if r.rc == 0 and not complete(r.out, want):
                    env.o.bad("truncated", f"only {len(r.out or b'')} of {n} bytes could be written, but the exit status is 0", base)
                    return
                if lim >= n + 16 and r.rc != 0:
                    env.o.bad("spurious", f"room for all of the {n} bytes but exit status {r.rc}", base)
                    return
                env.o.inc("limits on the output's size")
                env.o.inc("limits that bit" if r.rc else "limits that did not bite")
        else:
            # every operation on the output, or on an input, fails in turn
            side = rng.choice(["w", "w", "r"])
            target = "o.ps" if side == "w" else rng.choice(["s.script"] + list(files))
            common = {"LD_PRELOAD": env.extra["so"], "FI_FILE": target, "FI_LOG": "log"}
            seen = {}

            def go(e):
                got = {}

                def keep(d):
                    p = os.path.join(d, "log")
                    got["log"] = open(p, "rb").read() if os.path.exists(p) else b""
                r = env.run(base, env={**common, **e}, keep=keep)
                r_log = got["log"]
                return r, r_log
            # harmless: short and interrupted transfers
            e = rng.choice([{"FI_SHORT": str(rng.choice([1, 7, 100, 1000, 4000]))}, {"FI_INTR": "1"},
                            {"FI_SHORT": str(rng.choice([13, 512])), "FI_INTR": "1"}])
            r, log = go(e)
            if not (r.rc == 0 and complete(r.out, want)):
                # giving up is allowed as long as it's said
                if r.rc == 0 or side == "r":
                    env.o.bad("short", f"{e} on {target}: exit status {r.rc}, {len(r.out or b'')} of {len(want)} bytes", base)
                    return
            env.o.inc("short or interrupted transfers", log.count(b"W") + log.count(b"R") + log.count(b"i"))
            r, log = go({})
            n_ops = {"w": log.count(b"W"), "r": log.count(b"R"), "c": log.count(b"C")}
            ops = [(side, i) for i in range(n_ops[side])]
            if side == "w":
                ops += [("c", i) for i in range(n_ops["c"])]
            if len(ops) > 16:
                ops = ops[:4] + ops[-4:] + rng.sample(ops[4:-4], 8)
            for op, i in ops:
                for stay in (0, 1):
                    e = {"FI_OP": op, "FI_AT": str(i), "FI_ERR": str(rng.choice([5, 28, 122])), "FI_STAY": str(stay)}
                    r, log = go(e)
                    hit = log.count(b"!")
                    env.o.inc("faults injected", hit)
                    env.o.inc({"w": "failed writes", "r": "failed reads", "c": "failed closes"}[op], hit)
                    if not hit:
                        continue
                    if r.rc == 0 and (op != "r" and (op == "c" or not complete(r.out, want)) or
                                      op == "r" and not complete(r.out, want)):
                        env.o.bad("fault", f"{dict(w='write', r='read', c='close')[op]} number {i} of {target} failed, exit status 0 "
                                  f"with {len(r.out or b'')} of {len(want)} bytes written", base)
                        return
                    if op == "r" and r.rc != 0 and r.out:
                        env.o.bad("leftover", f"read number {i} of {target} failed but {len(r.out)} bytes were written", base)
                        return
    env.o.note((case.digest() if k < 4 else base.digest(), k))
    env.o.sample(f"kind {k}: " + src.decode("latin-1")[:800])


# ------------------------------------------------------------------ C14
def respell(rng, x):
    """Another way to write the same double."""
    s = repr(float(x))
    neg = s.startswith("-")
    u = s.lstrip("-")
    k = rng.randrange(7)
    if "e" not in u:
        a, _, b = u.partition(".")
        if k == 0:
            u = u + "0" * rng.choice([1, 2, 3, 4, 20, 90])
        elif k == 1:
            u = "0" * rng.randint(1, 3) + u
        elif k == 2:
            u = u + "e0"
        elif k == 3 and b == "0":
            u = a
        elif k == 4 and a == "0":
            u = "." + b
        elif k == 5 and b == "0":
            u = a + "."
        elif k == 6:
            n = rng.randint(1, 4)
            digits = a + b
            # digits * 10^-len(b), written as an integer with an exponent
            u = digits + f"e-{len(b):0{rng.randint(1, 3)}d}"
        if "e" not in u and rng.random() < .15:
            u = u + rng.choice(["e+0", "e+00", "E0", "E+000", "e-0"])
    elif k < 3:
        u = u.replace("e+", "e")
    if "e" in u and rng.random() < .3:
        u = u.replace("e", "E")
    return ("-" if neg else "+" if rng.random() < .1 else "") + u


def stl_variant(rng, tris, normals, junk_names=True):
    wide = rng.choice([0] * 7 + [1])
    far = lambda ks: int(10 ** rng.uniform(1, 4.2)) if wide and rng.random() < .1 else rng.choice(ks)
    pad = lambda: " " * far([0, 0, 1, 2, 4, 6, 17])
    sp = lambda: " " * far([1, 1, 1, 2, 5])
    end = lambda: " " * far([0, 0, 0, 1, 3])
    names = ["", " ", " s", " OpenSCAD_Model", " solid facet normal 1 2 3", "  two words", " caf\xc3\xa9 (%$", " endsolid", " vertex 1 2 3",
             " " + rng.choice(["n", "name ", "\xc3\xa9"]) * int(10 ** rng.uniform(1, rng.choice([2, 3, 4.5])))]
    L = []
    solids = rng.choice([1, 1, 1, 2, 3]) if rng.random() < .95 else int(10 ** rng.uniform(.5, 3))
    cuts = sorted(rng.randint(0, len(tris)) for _ in range(solids - 1))
    for a, z in zip([0] + cuts, cuts + [len(tris)]):
        L.append(pad() + "solid" + rng.choice(names))
        for t, n in list(zip(tris, normals))[a:z]:
            L.append(pad() + "facet normal" + "".join(sp() + respell(rng, c) for c in n) + end())
            L.append(pad() + "outer loop" + end())
            for v in t:
                L.append(pad() + "vertex" + "".join(sp() + respell(rng, c) for c in v) + end())
            L.append(pad() + "endloop" + end())
            L.append(pad() + "endfacet" + end())
        L.append(pad() + "endsolid" + rng.choice(names))
    cr = rng.choice([0, 0, 0, 1, .5])
    t = "".join(l + ("\r\n" if rng.random() < cr else "\n") for l in L)
    if rng.random() < .2:
        t = t[:-1]
    return t.encode("latin-1")


def unit_normals(tris):
    out = []
    for t in tris:
        n = np.cross(t[1] - t[0], t[2] - t[0])
        out.append(n / np.linalg.norm(n))
    return out


MALFORM = ["keyword", "few", "many", "word", "dots", "two", "four", "none", "blank", "garbage", "huge", "nan", "cut", "cutline",
           "binary", "nofacetend", "sign", "nul", "left out", "left out", "twice", "misplaced", "zero few"]


def malform(rng, text, kind):
    L = text.split("\n")
    idx = lambda w: [i for i, l in enumerate(L) if l.strip().startswith(w)]
    if kind == "cut":
        body = text.rstrip("\n")
        last = body.rfind("\n")
        return body[:rng.randint(1, last + len("endsoli"))]
    if kind == "cutline":
        return "\n".join(L[:rng.randint(1, len([l for l in L if l]) - 1)]) + rng.choice(["", "\n"])
    v = rng.choice(idx("vertex"))
    w = L[v].split()
    if kind == "keyword":
        i = rng.randrange(len([l for l in L if l]))
        p = L[i].split(" ")
        j = next(k for k, x in enumerate(p) if x)
        p[j] = rng.choice([p[j][:-1], p[j] + "x", "x" + p[j], "#"])
        L[i] = " ".join(p)
    elif kind == "few":
        L[v] = "vertex " + " ".join(w[1:3])
    elif kind == "many":
        L[v] = " ".join(w + ["0"])
    elif kind == "word":
        w[rng.randint(1, 3)] = rng.choice(["x", "one", "0x10", "1,5", "--1", "1-1", "-", ".", "e", "1e", "e5", "1e1.5"])
        L[v] = " ".join(w)
    elif kind == "dots":
        w[rng.randint(1, 3)] = rng.choice(["1.2.3", "1..2", "...", "1e2e3"])
        L[v] = " ".join(w)
    elif kind == "two":
        del L[v]
    elif kind == "four":
        L.insert(v, L[v])
    elif kind == "none":
        i = rng.choice(idx("facet"))
        j = next(k for k in range(i, len(L)) if L[k].strip().startswith("endfacet"))
        L[i:j + 1] = [l for l in L[i:j + 1] if not l.strip().startswith("vertex")]
    elif kind == "blank":
        L.insert(v, "; not STL")
    elif kind == "garbage":
        L.insert(rng.randint(0, len(L) - 1), rng.choice(["hello", "facet normal", "facet 0 0 1", "vertex", "vertexes 1 2 3",
                                                          "color 1 1 1", "end", "\x00\x01\x02", "loop", "outer", "normal 0 0 1"]))
    elif kind == "huge":
        w[rng.randint(1, 3)] = rng.choice(["1e999", "-1e400", "1" + "0" * 400])
        L[v] = " ".join(w)
    elif kind == "nan":
        w[rng.randint(1, 3)] = rng.choice(["nan", "inf", "-inf", "NaN", "infinity"])
        L[v] = " ".join(w)
    elif kind == "binary":
        return "\x80" * 80 + "\x01\0\0\0" + "".join(chr(rng.randrange(256)) for _ in range(50))
    elif kind == "nofacetend":
        i = rng.choice(idx("endfacet"))
        del L[i]
    elif kind == "nul":
        i = rng.choice([v, v] + idx("facet") + idx("endfacet") + idx("outer"))
        L[i] += "\0" + rng.choice(["", " ", "junk", "\0"])
    elif kind == "left out":
        del L[rng.choice([0] + [rng.choice(idx(x)) for x in ("facet", "outer", "endloop", "endfacet", "endsolid")])]
    elif kind == "twice":
        i = rng.choice([0] + [rng.choice(idx(x)) for x in ("facet", "outer", "endloop", "endfacet", "endsolid")])
        L.insert(i, L[i])
    elif kind == "misplaced":
        # a line where none of its kind belongs
        where = {"vertex": ["facet", "endfacet", "endsolid", "outer"], "facet": ["outer", "vertex", "endloop", "endfacet"], "outer loop": ["facet", "vertex", "endfacet"],
                 "endloop": ["facet", "outer", "endfacet"], "endfacet": ["facet", "outer", "vertex", "endloop", "endsolid"], "solid": ["facet", "outer", "vertex", "endfacet", "endsolid"],
                 "endsolid": ["facet", "outer", "vertex", "endfacet"]}
        x = rng.choice(list(where))
        L.insert(rng.choice(idx(rng.choice(where[x]))), {"vertex": "vertex 1 2 3", "facet": "facet normal 0 0 1"}.get(x, x))
    elif kind == "zero few":
        # a facet without a normal, left out, still needs its corners
        i = rng.choice(idx("facet"))
        L[i] = "facet normal 0 0 0"
        j = next(k for k in range(i, len(L)) if L[k].strip().startswith("vertex"))
        if rng.random() < .5:
            del L[j]
        else:
            L.insert(j, L[j])
    elif kind == "sign":
        L[v] = L[v] + rng.choice([" mm", "%", ",", " //"])
    return "\n".join(L)


def some_length(rng):
    """How long a stated normal is means nothing."""
    return rng.choice([1, 1, .001, 7, 30, 1000, 10.0 ** rng.uniform(-14, 14), 10.0 ** rng.uniform(-100, 100)])


def c14(env):
    rng = env.rng
    k = env.index % 4
    if k == 3:
        # malformed: refused, and where it was loaded is said
        tris = [t.round(3) for t in some_model(rng)]
        tris = [t for t in tris if np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) > 1e-6][:rng.choice([1, 2, 5, 40])]
        if not tris:
            return
        kind = rng.choice(MALFORM)
        text = malform(rng, G.stl(tris), kind)
        pre = "\n" * rng.randint(0, 5)
        case = Case(f'load good = "good.stl";\n{pre}load bad = "bad.stl";\npage {{ draw good {{ }} ' +
                    rng.choice(["draw bad { } ", ""]) + "}\n", {"good.stl": G.stl(tris), "bad.stl": text.encode("latin-1")}, QUIET)
        r = env.run(case)
        if r.rc != 1:
            env.o.bad("accepted", f"a model that is malformed ({kind}) gave exit status {r.rc}", case)
            return
        if r.out:
            env.o.bad("drawn", f"a model that is malformed ({kind}) was drawn", case)
            return
        if b"s.script:%d:" % (2 + len(pre)) not in r.err:
            env.o.bad("unlocated", f"nothing says that line {2 + len(pre)} loads a malformed model ({kind}): {r.err[-300:]!r}", case)
            return
        env.o.inc("malformed: " + kind)
        env.o.note(case.digest())
        return
    if k == 0:
        # exactly what the file says: strips of lone triangles, each all there
        tris, names = [], []
        n = rng.randint(1, 12)
        unit_ = rng.choice([1, 1, 1e-3, 1e3, 1e5, 1e-5, 1e-6])
        x = 0.0
        base = np.array([rng.uniform(-1, 1) for _ in range(3)]) * rng.choice([0, 1, 10]) * unit_
        for _ in range(n):
            w = rng.uniform(.2, 2)
            p = np.array([[x, 0, 0], [x + w, rng.uniform(-.3, .3), rng.uniform(-.2, .2)], [x + rng.uniform(0, w), rng.uniform(.6, 2), rng.uniform(-.2, .2)]])
            tris.append(p * unit_ + base)
            x += w + .1
        b = max(1, int(x * unit_ * 72 / 500))
        a = max(1, int(500 / (x * unit_ * 72)))
        nr = unit_normals(tris)
        t2, n2 = [], []
        for t, m in zip(tris, nr):
            t = t[[0, 1, 2]] if rng.random() < .5 else t[[0, 2, 1]]     # the stated normal decides
            t2.append(np.roll(t, rng.randrange(3), axis=0))
            n2.append(m * some_length(rng) if rng.random() < .5 else m)
        for _ in range(rng.choice([0, 0, 0, 1, 3])):
            # a facet that says it has no direction is not there
            i = rng.randint(0, len(t2))
            t2.insert(i, rng.choice(tris) + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1)]) * unit_)
            n2.insert(i, np.zeros(3))
            env.o.inc("facets without direction")
        case = Case(f'load m = "m.stl";\npage {{ draw m {{ scale = {a}:{b}; @[0,0]; }} }}\n',
                    {"m.stl": stl_variant(rng, t2, n2)}, QUIET)
        r = env.expect_ok(case, "a well-formed model")
        if not r:
            return
        proj = R.Projection(tris, None)
        pl = R.Placement(proj, (a, b), (0, 0))
        want = []
        for t in tris:
            p = pl(t)
            want += [seg(p[i], p[(i + 1) % 3]) for i in range(3)]
        bad = R.match_segs(R.Drawing(r.pages()[0]).lines, want)
        if bad:
            env.o.bad("fidelity", f"lone facets are not drawn as the file gives them: {bad}", case)
            return
        env.o.inc("lone facets checked", n)
        env.o.note(case.digest())
        env.o.sample(case.files["m.stl"].decode("latin-1")[:600])
        return
    tris = some_model(rng)
    if rng.random() < .5:
        tris = [t.round(rng.choice([1, 3, 6])) for t in tris]
        tris = [t for t in tris if np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) > 1e-9]
        if not tris:
            return
    nr = unit_normals(tris)
    view = G.random_view(rng)
    sc = some_scale(rng, size_of(tris))
    pg = G.page([f"draw m {{ scale = {sc[0]}:{sc[1]}; @[0,0]; view = {G.view_text(view)}; }}"])
    src = 'load m = "m.stl";\n' + pg
    a = Case(src, {"m.stl": G.stl(tris, None, nr)}, QUIET)
    if k == 1:
        # how it is written
        b = Case(src, {"m.stl": stl_variant(rng, tris, nr)}, QUIET)
        ra, rb = env.expect_ok(a, "a well-formed model"), env.expect_ok(b, "the same model, written differently")
        if not ra or not rb:
            return
        pa, pb = ra.pages()[0], rb.pages()[0]
        l, m = R.subtract(pa.lines, pb.lines)
        if l or m:
            env.o.bad("layout", f"the same model written differently is drawn differently: {l[:3]} / {m[:3]}", b)
            return
        env.o.inc("spellings compared")
    else:
        # the order of facets, which corner is first, how long and how exact the normals are, the winding
        P = R.Projection(tris, view)
        if (np.abs(P.all_nz) < 1e-6).any():
            return                     # edge on: rounding of a normal decides which side is seen
        order = list(range(len(tris)))
        rng.shuffle(order)
        t2, n2 = [], []
        for i in order:
            t = np.roll(tris[i], rng.randrange(3), axis=0)
            if rng.random() < .5:
                t = t[::-1]
            n = nr[i] * some_length(rng)
            if rng.random() < .5:
                n = n + np.linalg.norm(n) * np.array([rng.uniform(-.3, .3) for _ in range(3)])
            t2.append(t)
            n2.append(n)
        b = Case(src, {"m.stl": stl_variant(rng, t2, n2)}, QUIET)
        ra, rb = env.expect_ok(a, "a well-formed model"), env.expect_ok(b, "the same model, with its facets in another order")
        if not ra or not rb:
            return
        d = R.ink_diff(ra.pages()[0].lines, rb.pages()[0].lines)
        if d:
            env.o.bad("order", f"the order or winding of facets changes the drawing: {d}", b)
            return
        env.o.inc("orders compared")
    env.o.note(b.digest())
    env.o.sample(b.files["m.stl"].decode("latin-1")[:600])


# ------------------------------------------------------------------ C15
def sized_box(w, h):
    return G.stl(G.box([0, 0, 0], [w, h, 1]))


def drawn_sizes(page):
    """Sizes (in points) of the boxes drawn: connected components' extents."""
    lines = R.Drawing(page).lines
    return lines


def c15(env):
    rng = env.rng
    dirs = rng.sample(["a", "b", "c c", "d/e", "f.g", "long" * 10, "\xe9", " ", "  ", " a", "b ", "-", "\t", '"', "~", "$HOME", "A"], rng.randint(0, 4))
    names = rng.sample(["m.stl", "n.stl", "sub/m.stl", "x y.stl", "noext", "a/m.stl", "..stl", "%$0.stl"], rng.randint(1, 3))
    files, where = {}, {}
    used = set()
    odd = rng.choice([0, 0, .1, .3])

    def put(path):
        while True:
            w, h = rng.randint(2, 60), rng.randint(2, 50)
            if (w, h) not in used:
                break
        used.add((w, h))
        k = os.path.normpath(path)
        if k in where:
            return
        files[path] = sized_box(w, h)
        where[k] = (w, h)
        if rng.random() < odd:
            # it is the one all the same
            files[path], where[k] = rng.choice([("", (0, 0)), ("solid\nendsolid", (0, 0)), ("solid\n", "bad"), ("\x7fELF", "bad"),
                                                (files[path][:-30], "bad"), (" ", "bad")])

    lp = []
    for d in dirs:
        lp.append(rng.choice([d, d + "/", "./" + d, d + "//"]) if rng.random() < .4 else d)
    if rng.random() < .2:
        lp.insert(rng.randint(0, len(lp)), "no/such/dir")
    if rng.random() < .15:
        lp.insert(rng.randint(0, len(lp)), "")
    if rng.random() < .1 and dirs:
        lp.append(rng.choice(dirs))
    if rng.random() < .1:
        lp.append(".")
    for n in names:
        for d in ["."] + dirs + ["zz-not-searched", "scripts"]:
            if rng.random() < .45:
                put(os.path.join(d, n))
    sname = rng.choice(["s.script", "scripts/s.script"])
    loads_, lines, expect, missing = [], [], [], []
    line = 1
    k = rng.randint(1, 4)
    ids = rng.sample(["m", "mm", "M", "m1", "a", "load1", "page_", "n"], k)
    abs_used = False
    for i in ids:
        n = rng.choice(names)
        how = rng.random()
        if how < .15:
            n2 = rng.choice(["./", "zz/../", ".//"]) + n if rng.random() < .5 else n
            n2 = n2.replace("zz/../", "./")
        else:
            n2 = n
        if how > .88 and where:
            # an absolute name is that file, wherever else the name may be
            p = rng.choice(sorted(where))
            lines.append((i, "ABS/" + p))
            got = where[p]
            abs_used = True
        elif how > .83:
            lines.append((i, "ABS/no/such.stl"))
            got = None
            abs_used = True
        else:
            lines.append((i, n2))
            got = None
            for d in ["."] + [x for x in lp if x]:
                q = os.path.normpath(os.path.join(d, n2))
                if q in where:
                    got = where[q]
                    break
        (missing if got in (None, "bad") else expect).append((i, got, len(lines)))
        if got in ("bad", (0, 0)):
            env.o.inc("the first is malformed or empty")
    import core
    base = tempfile.mkdtemp(prefix="abs", dir=core.SCRATCH_ROOT)
    try:
        if abs_used:
            for f, t in files.items():
                p = os.path.join(base, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)
        src = "".join(f'load {i} = {G.lit(n.replace("ABS/", base + "/"))};\n' for i, n in lines)
        ok = [e for e in expect]
        src += "page {\n" + "".join(f"  draw {i} {{ scale = 1:20; @[{j - 1.5}, 0]; }}\n" for j, (i, _, _) in enumerate(ok)) + "}\n"
        args = list(QUIET)
        if lp or rng.random() < .3:
            args.append("--load_path=" + ",".join(lp))
        case = Case(src, files, args, sname)
        r = env.run(case)
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)
    if missing:
        if r.rc != 1 or r.out:
            env.o.bad("missing", f"{[lines[m[2] - 1] for m in missing]} are nowhere, but rc={r.rc}", case)
            return
        for i, _, ln in missing:
            if f"{sname}:{ln}:".encode() not in r.err:
                env.o.bad("unlocated", f"nothing says that the model of line {ln} is missing: {r.err[-300:]!r}", case)
                return
        for i, _, ln in expect:
            if f"{sname}:{ln}:".encode() in r.err:
                env.o.bad("blamed", f"line {ln}'s model is there, but: {r.err[-300:]!r}", case)
                return
        env.o.inc("missing models", len(missing))
    else:
        if not r.ok:
            env.o.bad("refused", f"every model is there but rc={r.rc}: {r.err[-300:]!r}", case)
            return
        want = []
        for j, (i, (w, h), _) in enumerate(ok):
            cx, cy = 396 + 72 * np.float32(j - 1.5), 306
            W, H = w * 3.6 / 2, h * 3.6 / 2
            c = [(cx - W, cy - H), (cx + W, cy - H), (cx + W, cy + H), (cx - W, cy + H)]
            if w:
                want += [seg(c[q], c[(q + 1) % 4]) for q in range(4)]
        bad = R.match_segs(R.Drawing(r.pages()[0]).lines, want)
        if bad:
            env.o.bad("wrong-file", f"not the first file found along ., {lp} was drawn: {bad}", case)
            return
        env.o.inc("models found", len(ok))
    env.o.note((case.digest(), tuple(sorted(where))))
    env.o.sample(src + " ".join(args) + "\nfiles: " + ", ".join(f"{k} {v}" for k, v in where.items()))


# ------------------------------------------------------------------ C16
def renamed(rng, doc):
    """The same document, with other names for its models."""
    new = {}
    same = "m" * int(10 ** rng.uniform(0, 3.6)) if rng.random() < .2 else ""
    for m in doc["models"]:
        while True:
            n = same + rng.choice("abcXYZ_") + "".join(rng.choice("abz09_ADEX") for _ in range(rng.randint(0, 12)))
            if n not in new.values() and n not in ("load", "page", "draw", "text", "dim", "angle", "dia", "rad", "_"):
                break
        new[m] = n
    return {**doc, "models": [new[m] for m in doc["models"]], "file": {new[m]: f for m, f in doc["file"].items()},
            "pages": [{**p, "items": [{**x, "model": new[x["model"]]} if "model" in x else x for x in p["items"]]} for p in doc["pages"]]}


def c16(env):
    rng = env.rng
    doc, files = docs.document(rng)
    a = docs.plain(doc)
    ca = Case(a, files, QUIET)
    ra = env.expect_ok(ca, "a valid document")
    if not ra:
        return
    for k in range(3):
        d2 = doc if k < 2 else renamed(rng, doc)
        b = docs.Writer(rng, shuffle=k > 0).doc(d2)
        cb = Case(b, files, QUIET)
        rb = env.expect_ok(cb, "the same document, written differently")
        if not rb:
            return
        if sans_time(ra.out) != sans_time(rb.out):
            la, lb = sans_time(ra.out).split(b"\n"), sans_time(rb.out).split(b"\n")
            d = [(x, y) for x, y in zip(la, lb) if x != y][:3] or [(len(la), len(lb))]
            env.o.bad("differs", f"the same document written differently gives another drawing: {d}", cb)
            return
        env.o.inc("spellings compared")
        env.o.note(cb.digest())
    env.o.sample(b.decode("latin-1"))


# ------------------------------------------------------------------ C17
def same_page(a, b):
    """None or how the marks of two pages differ."""
    l, m = R.subtract(a.lines, b.lines)
    if l or m:
        return f"strokes {l[:2]} / {m[:2]}"
    l, m = tdiff(a.texts, b.texts)
    if l or m:
        return f"texts {l[:2]} / {m[:2]}"
    l, m = adiff(a.arcs, b.arcs)
    if l or m:
        return f"arcs {l[:2]} / {m[:2]}"
    return None


def c17(env):
    rng = env.rng
    doc, files = docs.document(rng, pages=rng.randint(1, 5))
    src = docs.plain(doc)
    case = Case(src, files, QUIET)
    r = env.expect_ok(case, "a valid document")
    if not r:
        return
    pg = r.pages()
    if len(pg) != len(doc["pages"]):
        env.o.bad("pages", f"{len(pg)} pages for {len(doc['pages'])}", case)
        return
    # the same again, with other memory contents, other addresses, another environment
    for e in ({"MALLOC_PERTURB_": str(rng.randint(1, 255))},
              {"MALLOC_PERTURB_": str(rng.randint(1, 255)), "MALLOC_ARENA_MAX": "1", "JUNK": "x" * rng.randint(0, 9000), "LANG": "de_DE.UTF-8", "LC_ALL": rng.choice(["C.UTF-8", "POSIX", "de_DE.UTF-8"]),
               "MALLOC_TOP_PAD_": str(rng.choice([0, 100000])), "MALLOC_MMAP_THRESHOLD_": str(rng.choice([64, 4096]))}):
        c2 = Case(src, files, QUIET + ["--name="])
        r2 = env.run(c2, env=e)
        if not r2.ok or sans_time(r2.out) != sans_time(r.out):
            env.o.bad("again", f"the same input a second time ({sorted(e)}) gave something else: rc={r2.rc}", case)
            return
        env.o.inc("repeated runs")
    # each page by itself, and the pages in another order
    def sub(pages):
        return {**doc, "pages": pages}
    if len(doc["pages"]) > 1:
        order = list(range(len(doc["pages"])))
        rng.shuffle(order)
        c2 = Case(docs.plain(sub([doc["pages"][i] for i in order])), files, QUIET)
        r2 = env.expect_ok(c2, "the pages in another order")
        if not r2:
            return
        for k, i in enumerate(order):
            d = same_page(pg[i], r2.pages()[k])
            if d:
                env.o.bad("order", f"page {i + 1} changes when it is page {k + 1}: {d}", c2)
                return
            env.o.inc("pages moved")
    k = rng.randrange(len(doc["pages"]))
    p = doc["pages"][k]
    used = {x["model"] for x in p["items"] if "model" in x}
    alone = {**doc, "models": [m for m in doc["models"] if m in used], "pages": [p]}
    c2 = Case(docs.plain(alone), {f: t for f, t in files.items()}, QUIET)
    r2 = env.expect_ok(c2, "one page by itself")
    if not r2:
        return
    d = same_page(pg[k], r2.pages()[0])
    if d:
        env.o.bad("alone", f"page {k + 1} is different by itself: {d}", c2)
        return
    env.o.inc("pages alone")
    # a page is the sum of its parts, in any order, and a thing drawn twice is drawn the same
    if p["items"]:
        parts = [{"args": [], "items": [x]} for x in p["items"]]
        empty = {"args": [], "items": []}
        it = list(p["items"])
        rng.shuffle(it)
        c2 = Case(docs.plain(sub(parts + [empty, {"args": p["args"], "items": it}])), files, QUIET)
        r2 = env.expect_ok(c2, "the parts of a page on pages of their own")
        if not r2:
            return
        q = r2.pages()
        d = same_page(pg[k], q[-1])
        if d:
            env.o.bad("item-order", f"page {k + 1} changes with the order of what is on it: {d}", c2)
            return
        blank = q[-2]
        L, T, A = list(blank.lines), list(blank.texts), list(blank.arcs)
        for x in q[:-2]:
            L += R.subtract(x.lines, blank.lines)[0]
            T += tdiff(x.texts, blank.texts)[0]
            A += x.arcs
        whole = {**doc, "pages": [{"args": [], "items": p["items"]}]}
        c3 = Case(docs.plain(whole), files, QUIET)
        r3 = env.expect_ok(c3, "a page without its name")
        if not r3:
            return
        w = r3.pages()[0]
        l, m = R.subtract(w.lines, L)
        l2, m2 = tdiff(w.texts, T)
        l3, m3 = adiff(w.arcs, A)
        if l or m or l2 or m2 or l3 or m3:
            env.o.bad("sum", f"a page is not the sum of what is on it: strokes {l[:2]}/{m[:2]} texts {l2[:2]}/{m2[:2]} arcs {l3[:2]}/{m3[:2]}", c3)
            return
        env.o.inc("pages taken apart")
        env.o.inc("things drawn on their own", len(p["items"]))
    env.o.note(case.digest())
    env.o.sample(src.decode("latin-1"))
