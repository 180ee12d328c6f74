"""C04, C05, C20: the document as a whole, its texts, its furniture."""
import math, os, re, shutil, struct, subprocess, tempfile
import numpy as np
import gen as G, ref as R, ps as PS
import p_dims as D
import docs
from docs import S
from common import *

QUIET = ["--notimestamp", "--nonumber_pages"]


# ------------------------------------------------------------------ C04
def expected_texts(p):
    n = 1                                             # the title, even when empty
    for x in p["items"]:
        if "model" in x:
            n += len(x["dims"])
        else:
            n += sum(1 for l in bytes(x["text"]).split(b"\n") if l)
    return n


def well_formed(env, r, case, pages, what):
    """Interprets r's output; -> its pages or None."""
    try:
        pg = r.pages()
    except PS.PSError as e:
        env.o.bad("malformed", f"{what}: the output does not run: {e}", case)
        return None
    if len(pg) != pages:
        env.o.bad("page-count", f"{what}: {len(pg)} pages were shown for {pages} page blocks", case)
        return None
    for k, p in enumerate(pg):
        if p.size is None or [float(x) for x in p.size] != [792.0, 612.0]:
            env.o.bad("page-size", f"{what}: page {k + 1} has size {p.size}", case)
            return None
        if any(abs(w - .1) > 1e-3 for w in p.widths):
            env.o.bad("line-width", f"{what}: page {k + 1} has lines {sorted(p.widths)} points wide", case)
            return None
        for t in p.texts:
            if abs(float(t.size) - 8) > 1e-6 or str(t.font) != "Courier":
                env.o.bad("font", f"{what}: page {k + 1}: {t.s!r} is shown in {t.size} point {t.font}", case)
                return None
    env.o.inc("pages interpreted", len(pg))
    env.o.inc("marks interpreted", sum(len(p.lines) + len(p.arcs) + len(p.texts) for p in pg))
    return pg


EXTREME = ["0", "-0", "0.0", "1", "-1", "90", "180", "-180", "360", "45", "0.0000001", "-0.00000000000001", "1000000",
           "-99999999", "123456789012", "0.1", "7777777777777777777777", "-0.0000000000000000000000000000000000001",
           "100000000000000000000000000000", "16777217"]


def extreme(rng, doc):
    """Replace some numbers, or make some points coincide."""
    pool = []

    def walk(v, put):
        if isinstance(v, docs.Fn):
            walk(v.arg, lambda x: setattr(v, "arg", x))
        elif isinstance(v, G.Vec):
            pool.append(("vec", v, put))

    for p in doc["pages"]:
        for it in p["items"]:
            for args in [it.get("args", [])] + [d[1] for d in it.get("dims", [])]:
                for i, (n, v) in enumerate(args):
                    walk(v, lambda x, args=args, i=i, n=n: args.__setitem__(i, (n, x)))
        for it in p["items"]:
            if "model" in it and rng.random() < .15:
                big = lambda: int(10 ** rng.uniform(0, 9))
                it["args"] = [a for a in it["args"] if a[0] != "scale"] + [("scale", docs.Sc(big(), big()))]
    if not pool:
        return
    for _ in range(rng.randint(1, 3)):
        _, v, put = rng.choice(pool)
        if rng.random() < .5:
            new = docs.G_vec([raw(rng.choice(EXTREME)) if rng.random() < .6 else n for n in v.n])
        else:
            same = [q for q in pool if len(q[1].n) == len(v.n)]
            new = docs.G_vec(list(rng.choice(same)[1].n))
        put(new)


def raw(s):
    n = G.Num.__new__(G.Num)
    n.s = s
    n.v = float(np.float32(float(s)))
    return n


def nasty_model(rng):
    """STL text with facets that are slivers, flat, doubled, or far away."""
    t = [np.array(x) for x in some_model(rng)]
    out = []
    for x in t:
        k = rng.random()
        if k < .08:
            x = x.copy()
            x[2] = x[0]                                # no area
        elif k < .16:
            x = x.copy()
            x[2] = (x[0] + x[1]) / 2                   # no area, three corners
        elif k < .22:
            x = x.copy()
            x[rng.randrange(3)] += np.array([rng.gauss(0, 1) for _ in range(3)]) * 1e-9
        elif k < .27:
            out.append(x)                              # twice
        elif k < .32:
            x = x * rng.choice([1e-6, 1e6, 0])
        out.append(x)
    nrm = [[rng.choice([1, -1, .5, 0, 1e-9]) if rng.random() < .2 else rng.uniform(-1, 1) for _ in range(3)] for _ in out]
    return G.stl(out, None, nrm)


def c04(env):
    rng = env.rng
    doc, files = docs.document(rng)
    flags = []
    if rng.random() < .5:
        flags.append("--name=" + arg_string(rng))
    flags += rng.choice([[], QUIET, QUIET[:1], QUIET[1:]])
    name = rng.choice(["s.script", "a b.script", "%%EOF (x", "d)ir/x\ny.script", "\\.s", "$0$5"])
    if rng.random() < .5:
        # must be accepted, and is what was asked for
        src = docs.Writer(rng if rng.random() < .5 else None).doc(doc)
        case = Case(src, files, flags, name)
        r = env.expect_ok(case, "a valid document")
        if not r:
            return
        pg = well_formed(env, r, case, len(doc["pages"]), "a valid document")
        if pg is None:
            return
        foot = 0 if flags[-2:] == QUIET else 1
        for k, (p, q) in enumerate(zip(doc["pages"], pg)):
            want = expected_texts(p) + foot
            if len(q.texts) != want:
                env.o.bad("marks", f"page {k + 1} shows {len(q.texts)} texts, {want} were asked for: "
                          f"{[t.s for t in q.texts][:8]}", case)
                return
            arcs = sum(1 for x in p["items"] for d in x.get("dims", []) if d[0] == "angle")
            if len(q.arcs) != arcs:
                env.o.bad("arcs", f"page {k + 1} has {len(q.arcs)} arcs for {arcs} angles", case)
                return
            left, miss = R.subtract(q.lines, R.BORDER)
            if miss:
                env.o.bad("border", f"page {k + 1} lacks border strokes {miss}", case)
                return
        env.o.inc("valid documents")
    else:
        # whatever it is: accepted means it is a document
        for f in files:
            if rng.random() < .5:
                files[f] = nasty_model(rng)
        extreme(rng, doc)
        src = docs.plain(doc)
        case = Case(src, files, flags, name)
        r = env.run(case)
        if r.rc == 1:
            env.o.inc("degenerate documents refused")
            env.o.note(("refused", case.digest()))
            return
        if r.rc != 0:
            env.o.bad("died", f"a degenerate document ended with {r.rc}: {r.err[-300:]!r}", case)
            return
        if well_formed(env, r, case, len(doc["pages"]), "a degenerate document") is None:
            return
        env.o.inc("degenerate documents drawn")
    env.o.note(case.digest())
    env.o.sample(src.decode("latin-1"))


def arg_string(rng):
    s = docs.hostile(rng, 6).replace(b"\0", b"0")
    return os.fsdecode(s)


# ------------------------------------------------------------------ C05
def a_long(rng, s):
    """Now and then, much more of it."""
    if rng.random() < .98 or not len(s):
        return s
    return S(bytes(s) * max(1, int(10 ** rng.uniform(2, 4.8)) // len(s)))


def label(rng):
    """(script string value, what it must say for v)"""
    pre, post = bytes(a_long(rng, docs.hostile(rng, 3))), docs.hostile(rng, 3)
    flags = "".join(c for c in "-+ 0#" if rng.random() < .12)
    width = str(rng.randint(1, 20)) if rng.random() < .3 else ""
    prec = "." + str(rng.randint(0, 6)) if rng.random() < .8 else ""
    conv = ("%" + flags + width + prec + "f").encode()
    esc = lambda b: b.replace(b"%", b"%%")
    return S(esc(pre) + conv + esc(post)), lambda v: pre + conv % v + post


def c05(env):
    rng = env.rng
    n = rng.choice([3, 4, 6, 12])
    rad = rng.choice([1, .5, 2, 1.25])
    w = rad * 3
    tri = G.prism([(-w, -w), (w, -w), (w, w), (-w, w)], 0, 1, G.ngon(0, 0, rad, n))
    doc = {"models": ["m"], "pages": []}
    want = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = {"args": [], "items": []}
        exp = []
        title = b""
        if rng.random() < .7:
            title = bytes(a_long(rng, docs.a_string(rng)))
            p["args"].append(("name", S(title)))
        exp.append((title, (784 - len(title) * 8 * .6, 8), "at"))
        for _ in range(rng.randint(0, 5)):
            if rng.random() < .6:
                s = a_long(rng, docs.a_string(rng))
                t = {"text": s, "args": []}
                at = np.zeros(2)
                if rng.random() < .8:
                    v = G.Vec([rng.uniform(-6, 6), rng.uniform(-5, 5)], rng.choice([0, 1, 3, 6]))
                    t["args"].append(("@", v))
                    at = v.v
                at = np.array([396.0, 306.0]) + 72 * at
                for k, l in enumerate(bytes(s).split(b"\n")):
                    if l:
                        exp.append((l, (at[0], at[1] - 12 * k), "at"))
                p["items"].append(t)
            else:
                d = {"model": "m", "args": [], "dims": []}
                if rng.random() < .5:
                    d["args"].append(("scale", docs.Sc(1, rng.randint(1, 9))))
                V = lambda *c: G.Vec(c, 6)
                for _ in range(rng.randint(1, 4)):
                    kind = rng.choice(["dim", "angle", "dia", "rad"])
                    fv, say = label(rng)
                    fmt = [("fmt", fv)]
                    at = V(rng.randint(-9, 9), rng.randint(-9, 9), 0)
                    if rng.random() < .12:
                        fmt = []
                        say = lambda v, k=kind: (b"%.1f" if k == "angle" else b"%.3f") % v
                    if kind == "dim":
                        v = rng.choice([0.5, 1, 2.25, 7, 1024, .125])
                        a = [("at", at), ("from", V(0, 0, 0)), ("to", V(v, 3, 0)), ("dir", V(1, 0, 0))]
                        val = [say(v)]
                    elif kind == "angle":
                        dx, dy, deg = rng.choice([(0, 1, 90), (1, 1, 45), (-1, 1, 135)])
                        a = [("at", V(rng.randint(1, 9), rng.randint(1, 9), 0)), ("apex", V(0, 0, 0)), ("from_dir", V(1, 0, 0)),
                             ("to_dir", V(dx, dy, 0))]
                        val = [say(deg + e) + b" deg" for e in (-1e-12, 0, 1e-12, -1e-7, 1e-7)]
                    else:
                        a = [("at", at), ("center", V(0, 0, 0)), ("dir", V(1, 0, 0))]
                        k = 2 if kind == "dia" else 1
                        pre = b"\xe9" if kind == "dia" else b"R"
                        val = [pre + say(k * rad * (1 + e)) for e in (-1e-9, -1e-14, 0, 1e-14, 1e-9)]
                    d["dims"].append((kind, a + fmt))
                    exp.append((val, None, "label"))
                p["items"].append(d)
        doc["pages"].append(p)
        want.append(exp)
    src = docs.Writer(rng if rng.random() < .5 else None).doc(doc)
    case = Case(src, {"m.stl": G.stl(tri)}, QUIET)
    r = env.expect_ok(case, "a document with texts")
    if not r:
        return
    pg = r.pages()
    if len(pg) != len(want):
        env.o.bad("pages", f"{len(pg)} pages for {len(want)}", case)
        return
    for k, (exp, q) in enumerate(zip(want, pg)):
        rest = list(q.texts)
        for s, at, kind in exp:
            ss = s if isinstance(s, list) else [s]
            for i, t in enumerate(rest):
                if t.s in ss and (at is None or max(abs(t.at[0] - at[0]), abs(t.at[1] - at[1])) < R.tol_at(at)):
                    rest.pop(i)
                    env.o.inc("titles and text lines checked" if at is not None else "labels checked")
                    break
            else:
                same = [t for t in rest if t.s in ss]
                if same:
                    env.o.bad("place", f"page {k + 1}: {ss[0]!r} belongs at {at} but is at {same[0].at}", case)
                else:
                    env.o.bad("text", f"page {k + 1}: {ss[0]!r} was asked for but what is shown is {[t.s for t in rest][:6]}", case)
                return
        if rest:
            env.o.bad("extra", f"page {k + 1}: nobody asked for {[(t.s, t.at) for t in rest][:4]}", case)
            return
        env.o.inc("bytes checked", sum(len(t.s) for t in q.texts))
    env.o.note(case.digest())
    env.o.sample(src.decode("latin-1"))


# ------------------------------------------------------------------ C20
FAKE = r"""
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
#include <stdio.h>
/* A wall clock that starts at FAKE_T and moves FAKE_STEP seconds at every look. */
static long n;
static long now(void) {
  const char *t = getenv("FAKE_T"), *s = getenv("FAKE_STEP");
  return atol(t ? t : "0") + (n++) * atol(s ? s : "0");
}
#include <sys/syscall.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    ts->tv_sec = now(); ts->tv_nsec = 987654321; return 0;
  }
  return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = now(); tv->tv_usec = 987654; return 0; }
time_t time(time_t *t) { time_t r = now(); if (t) *t = r; return r; }
"""


def fake_clock(runner, tier, seed):
    import core
    d = tempfile.mkdtemp(prefix="clk", dir=core.SCRATCH_ROOT)
    with open(d + "/f.c", "w") as f:
        f.write(FAKE)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", d + "/f.so", d + "/f.c"], check=True)
    return {"so": d + "/f.so"}


def tzif(offset):
    """A zone that always is offset seconds east of Greenwich."""
    head = lambda v: b"TZif" + v + b"\0" * 15
    a = offset
    sign = "-" if a >= 0 else "+"
    q = abs(a)
    tz = "<LCL>%s%d:%02d:%02d" % (sign, q // 3600, q // 60 % 60, q % 60)
    body = struct.pack(">6l", 0, 0, 0, 0, 1, 4) + struct.pack(">lBB", offset, 0, 0) + b"LCL\0"
    return head(b"2") + body + head(b"2") + body + b"\n" + tz.encode() + b"\n"


def one_line(b):
    return re.sub(rb"[\n\r\f]", b" ", b)


def c20(env):
    rng = env.rng
    import datetime
    npages = rng.choice([1, 1, 2, 3, 9, 10, 11])
    if env.index % 40 == 7:
        npages = 120
    ts, num = rng.random() < .5, rng.random() < .5
    title = [bytes(docs.a_string(rng, nl=False)) if rng.random() < .6 else b"" for _ in range(npages)]
    doc = {"models": [], "pages": [{"args": [("name", S(t))] if t or rng.random() < .3 else [], "items": []} for t in title]}
    flags = []
    if not ts:
        flags.append(rng.choice(["--notimestamp", "--timestamp=false"]))
    elif rng.random() < .5:
        flags.append("--timestamp")
    if not num:
        flags.append(rng.choice(["--nonumber_pages", "--number_pages=false"]))
    elif rng.random() < .5:
        flags.append("--number_pages=true")
    name = b""
    if rng.random() < .7:
        name = docs.hostile(rng, 6).replace(b"\0", b"0")
        flags.append("--name=" + os.fsdecode(name))
    rng.shuffle(flags)
    sname = rng.choice(["s.script", "a b", "d/e.script", "x\ny.script", "$0 $1", "%%s", "caf\xe9.txt"])
    # any moment from 1902 to 2106, and the awkward ones
    t = rng.choice([rng.randint(0, 2 ** 32), rng.randint(946684800, 2000000000),
                    86400 * rng.randint(0, 30000) + rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 46799, 46800, 82800, 86399])])
    off = rng.choice([0, 0, 3600, -28800, 19800, 20700, 45900, -34200, 50400, -43200])
    step = rng.choice([0, 0, 1, 61, 3600, 86400])
    tzd = {"tz/localtime": tzif(off), "tz/Here": tzif(off)}
    case = Case(docs.plain(doc), tzd, flags, sname)
    envv = {"LD_PRELOAD": env.extra["so"], "FAKE_T": str(t), "FAKE_STEP": str(step), "TZDIR": "tz", "TZ": ":Here"}
    if rng.random() < .3:
        envv.update(rng.sample([("SOURCE_DATE_EPOCH", "86400"), ("LC_TIME", "de_DE.UTF-8"), ("LANG", "C.UTF-8"), ("DATEMSK", "x"), ("LC_ALL", "POSIX"),
                                ("NO_COLOR", "1"), ("USER", "me"), ("HOSTNAME", "here"), ("PAGER", "x"), ("PWD", "/")], 4))
        if rng.random() < .5:
            envv["SOURCE_DATE_EPOCH"] = str(rng.randint(0, 2 ** 31))
    r = env.run(case, env=envv)
    if not r.ok:
        env.o.bad("refused", f"rc={r.rc} {r.err[-300:]!r}", case)
        return
    try:
        pg = r.pages()
    except PS.PSError as e:
        env.o.bad("malformed", str(e), case)
        return
    # the head of the document
    def when(k):
        return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + off + k * step)).strftime("%Y-%m-%d %H:%M:%S").encode()
    head = {}
    for l in r.out.split(b"\n")[:8]:
        m = re.match(rb"% (Name|Source|Time): ?(.*)$", l, re.S)
        if m:
            head.setdefault(m[1], m[2])
    if set(head) != {b"Name", b"Source", b"Time"}:
        env.o.bad("header", f"the document starts {r.out[:200]!r}", case)
        return
    if head[b"Name"].rstrip() != one_line(name).rstrip():
        env.o.bad("header-name", f"--name={name!r} became {head[b'Name']!r}", case)
        return
    if head[b"Source"].rstrip() != one_line(os.fsencode(sname)).rstrip():
        env.o.bad("header-source", f"{sname!r} became {head[b'Source']!r}", case)
        return
    times = [when(k) for k in range(400)] if step else [when(0)]
    if head[b"Time"] not in times:
        env.o.bad("time", f"the clock said {times[0]!r} but the header says {head[b'Time']!r}", case)
        return
    now = head[b"Time"]
    env.o.inc("clock readings checked")
    if len(pg) != npages:
        env.o.bad("pages", f"{len(pg)} pages for {npages}", case)
        return
    for k, q in enumerate(pg):
        foot = b" ".join(([now] if ts else []) + ([b"page %d of %d" % (k + 1, npages)] if num else []))
        box, at = R.title_box(title[k])
        want = [(title[k], at)] + ([(foot, (7, 7))] if foot else [])
        rest = [(x.s, x.at) for x in q.texts]
        for s, p in want:
            for i, (s2, p2) in enumerate(rest):
                if s == s2 and max(abs(p[0] - p2[0]), abs(p[1] - p2[1])) < 3e-3:
                    rest.pop(i)
                    break
            else:
                env.o.bad("furniture", f"page {k + 1}: {s!r} at {p} is not among {[(x.s, x.at) for x in q.texts]}", case)
                return
        if rest:
            env.o.bad("furniture", f"page {k + 1}: nobody asked for {rest}", case)
            return
        bad = R.match_segs(q.lines, R.BORDER + box)
        if bad or q.arcs:
            env.o.bad("frame", f"page {k + 1}: border and title box: {bad} {q.arcs}", case)
            return
        if [float(x) for x in q.size] != [792.0, 612.0]:
            env.o.bad("size", f"page {k + 1}: {q.size}", case)
            return
        env.o.inc("pages checked")
    env.o.note((case.digest(), t, off, step))
    env.o.sample(f"clock {t} step {step} zone {off:+d}s flags {flags} script name {sname!r}: time {now.decode()}, {npages} pages")
