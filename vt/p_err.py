"""C03, C18: what the program says about mistakes.  C19: circles."""
import math, os, re, subprocess, tempfile
import numpy as np
import gen as G, ref as R
import p_dims as D
import docs
from docs import S
from common import *


# ------------------------------------------------------------------ C03
class Text:
    """A script being written, that knows what line it is on."""

    def __init__(self, rng):
        self.rng = rng
        self.b = []
        self.line = 1

    def add(self, s):
        self.b.append(s)
        self.line += s.count("\n")

    def brk(self, always=False):
        k = self.rng.random()
        if always or k < .5:
            self.add("\n" * self.rng.choice([1, 1, 1, 2, 3]))
        elif k < .65:
            self.add(self.rng.choice([" // remark\n", "\r\n", "\n// page {\n"]))
        else:
            self.add(" ")


class Mistake:
    """Lines first..last hold it; one of `at` must be named together with one of `words`.
    An optional one may be left for the next run to find."""

    def __init__(self, what, first, last, at, words):
        self.what, self.first, self.last, self.at, self.words = what, first, last, at, words
        self.optional = False


def any_of(what, ms):
    """Reporting one of these is enough."""
    return Mistake(what, min(m.first for m in ms), max(m.last for m in ms), [a for m in ms for a in m.at], [w for m in ms for w in m.words])


def emit_args(t, args, sep, close):
    """args: [(text, tag)] -> {tag: line}"""
    where = {}
    for i, (a, tag) in enumerate(args):
        if i and sep == ",":
            t.add(",")
        t.brk()
        if tag:
            where[tag] = t.line
        t.add(a)
        if sep == ";":
            t.add(";")
    t.brk()
    t.add(close)
    return where


OKDIM = {
    "dim": ["at = [0,0,0]", "from = [0,0,0]", "to = [1,1,0]", "dir = [1,0,0]"],
    "angle": ["at = [1,1,0]", "apex = [0,0,0]", "from_dir = [1,0,0]", "to_point = [0,1,0]"],
    "dia": ["at = [2,2,0]", "center = [0,0,0]", "dir = [1,1,0]"],
    "rad": ["at = [2,2,0]", "center = [0,0,0]", "dir = [1,1,0]"],
}
BADFMT = ["%d", "%s", "%f %f", "none", "", "%", "%lf %", "%.3", "%5$f", "%x", "%c", "%f%", "% "]


def one_dim(t, bad):
    """An annotation, with a mistake if asked for -> Mistake or None."""
    rng = t.rng
    kind = rng.choice(list(OKDIM))
    args = [(a, None) for a in OKDIM[kind]]
    rng.shuffle(args)
    if rng.random() < .3 and not bad:
        args.append(('fmt = "%.2f mm"', None))
    what, words = None, []
    mark = None
    if bad:
        what = rng.choice(["missing", "missing", "unknown", "duplicate", "type", "fmt", "fmt-type", "function", "zero", "nested"] +
                          (["both", "flat"] if kind == "angle" else []))
        if what == "missing":
            gone = args.pop(rng.randrange(len(args)))
            words = [gone[0].split(" ")[0].split("_")[0]]
        elif what == "unknown":
            n = rng.choice(["colour", "At", "frm", "scale", "view", "name", "radius", "x_", "@"])
            args.insert(rng.randint(0, len(args)), ("@ [1,2]" if n == "@" else n + " = " + rng.choice(["1", '"s"', "[0,0,0]", "[1,2]", "3:4"]), "x"))
            mark, words = "x", [n]
        elif what == "duplicate":
            i = rng.randrange(len(args))
            args.append((args[i][0], "x"))
            words = [args[i][0].split(" ")[0]]
            mark = "x"
        elif what == "type":
            i = rng.randrange(len(args))
            n = args[i][0].split(" ")[0]
            args[i] = (n + " = " + rng.choice(['"here"', "3", "[1,2]", "1:2"]), "x")
            mark, words = "x", [n]
        elif what == "fmt":
            args.insert(rng.randint(0, len(args)), ("fmt = " + G.lit(rng.choice(BADFMT)), "x"))
            mark, words = "x", ["fmt"]
        elif what == "fmt-type":
            args.insert(rng.randint(0, len(args)), ("fmt = " + rng.choice(["3", "[1,2]", "[1,2,3]", "1:1"]), "x"))
            mark, words = "x", ["fmt"]
        elif what in ("function", "nested"):
            i = rng.choice([k for k, a in enumerate(args) if not a[0].startswith("dir ")])
            n, v = args[i][0].split(" = ")
            fn = rng.choice(["nearest", "Near", "centre", "f", "at", "center_", "near2"])
            args[i] = (f"{n} = {fn}({v})" if what == "function" else f"{n} = near({fn}({v}))", "x")
            mark, words = "x", [fn]
        elif what == "zero":
            if kind == "angle":
                args = [("from_point = [0,0,0]", None) if a[0].startswith("from") else a for a in args]
                words = ["egenerate", "angle"]
            else:
                z = "[0,0,0]" if kind == "dim" or rng.random() < .5 else "[0,0,5]"
                args = [("dir = " + z, "x") if a[0].startswith("dir") else a for a in args]
                mark, words = "x", ["dir"]
        elif what == "both":
            side = rng.choice(["from", "to"])
            has = [a for a in args if a[0].startswith(side)][0][0]
            other = side + ("_point" if "_dir" in has else "_dir")
            args.append((other + " = [3,1,0]", "x"))
            args = [(a, "x0") if a == has else (a, g) for a, g in args]
            mark, words = ("x", "x0"), [side]
        elif what == "flat":
            args = [(a, g) for a, g in args if a.split(" ")[0] in ("at", "apex")] + [("from_dir = [1,0,0]", None), ("to_dir = [-2,0,0]", None)]
            words = ["egenerate", "angle"]
    more = bad and rng.random() < .2
    if more:
        args.insert(rng.randint(0, len(args)), ("wrong = 1", "more"))
    first = t.line
    t.add(kind)
    t.brk() if rng.random() < .3 else None
    t.add("(")
    where = emit_args(t, args, ",", ")")
    t.brk() if rng.random() < .2 else None
    t.add(";")
    if not bad:
        return None
    at = [first] if mark is None else ([where[m] for m in mark if m in where] if isinstance(mark, tuple) else [where[mark]])
    if more:
        return Mistake(f"{what} and another in {kind}", first, t.line, at + [where["more"]], words + ["wrong"])
    return Mistake(f"{what} in {kind}", first, t.line, at, words)


def one_draw(t, bad):
    """-> list of Mistakes.  bad: 'draw', 'both' or number of bad annotations."""
    rng = t.rng
    out = []
    model, args, what, mark, words = "m", [], None, None, []
    if rng.random() < .5:
        args.append(("scale = 1:2", None))
    if rng.random() < .5:
        args.append(("@ [1,2]", None))
    if rng.random() < .5:
        args.append((rng.choice(['view = "Z+"', "view = [0,0]"]), None))
    if bad in ("draw", "both"):
        what = rng.choice(["model", "unknown", "duplicate", "scale", "view", "view-type"])
        if what == "model":
            model = rng.choice(["mm", "M", "other", "m_", "x1"])
            words = [model]
        elif what == "unknown":
            n = rng.choice(["size", "Scale", "views", "name", "at", "fmt"])
            args.append((n + " = " + rng.choice(["1", '"s"', "[0,0,0]", "[1,2]", "3:4"]), "x"))
            mark, words = "x", [n]
        elif what == "duplicate":
            if not args:
                args.append(("scale = 1:2", None))
            a = rng.choice(args)[0]
            args.append((a, "x"))
            mark, words = "x", [a.split(" ")[0]]
        elif what == "scale":
            args = [a for a in args if not a[0].startswith("scale")] + [("scale = " + rng.choice(["2", '"1:2"', "[1,2]", "[1,2,3]"]), "x")]
            mark, words = "x", ["scale"]
        else:
            v = rng.choice(['"top"', '"z+"', '""', '"Z"', '" Z+"', '"Z+ "', '"W-"']) if what == "view" else rng.choice(["3", "[0,0,1]", "1:2"])
            args = [a for a in args if not a[0].startswith("view")] + [("view = " + v, "x")]
            mark, words = "x", ["view"]
    rng.shuffle(args)
    t.add("draw")
    t.brk()
    first = t.line
    t.add(model)
    t.brk()
    t.add("{")
    items = [("a", a) for a in args]
    nd = rng.randint(0, 2)
    dims = ["ok"] * nd + ["bad"] * (bad if isinstance(bad, int) else rng.randint(1, 2) if bad == "both" else 0)
    rng.shuffle(dims)
    items += [("d", d) for d in dims]
    if rng.random() < .5:
        rng.shuffle(items)
    if what == "duplicate":
        # the second one is the one too many
        pos = [i for i, (k, a) in enumerate(items) if k == "a" and a[0] == [x for x in args if x[1] == "x"][0][0]]
        for i in pos:
            items[i] = ("a", (items[i][1][0], "x" if i == pos[-1] else None))
    where = {}
    for k, a in items:
        t.brk()
        if k == "a":
            if a[1]:
                where[a[1]] = t.line
            t.add(a[0] + ";")
        else:
            m = one_dim(t, a == "bad")
            if m:
                out.append(m)
    t.brk()
    t.add("}")
    if what:
        m = Mistake(f"{what} of draw", first, t.line, [where[mark]] if mark else [first], words)
        # its own mistakes may hide those of its annotations, or be hidden by them
        out = [any_of(f"{what} of draw and {len(out)} of its annotations", [m] + out) if out else m]
    return out


def one_text(t, bad):
    rng = t.rng
    first = t.line
    t.add("text")
    t.brk()
    t.add('["some' + rng.choice(["", '" "', '"\n"']) + '"]')
    # (a broken literal above adds lines; add() counts them)
    t.add("{")
    args = [("@ [1,1]", None)] if rng.random() < .6 else []
    mark, words, what = None, [], None
    if bad:
        what = rng.choice(["unknown", "duplicate"])
        if what == "unknown":
            n = rng.choice(["size", "at", "fmt", "name", "font"])
            args.insert(rng.randint(0, len(args)), (n + " = " + rng.choice(["1", '"s"', "[0,0,0]"]), "x"))
            words = [n]
        else:
            args = [("@ [1,1]", None), ("@ [2,1]", "x")]
            words = ["@"]
        mark = "x"
    where = emit_args(t, args, ";", "}")
    return [Mistake(f"{what} in text", first, t.line, [where[mark]], words)] if bad else []


def empty_draw(t):
    """Functions and circles need points: a model without any has none."""
    rng = t.rng
    t.add("draw e {")
    out = []
    for _ in range(rng.randint(1, 3)):
        t.brk()
        first = t.line
        k = rng.choice(["dia", "rad", "near", "center"])
        if k in ("dia", "rad"):
            at = [first]
            t.add(k + "(")
            emit_args(t, [(a, None) for a in OKDIM[k]], ",", ");")
        else:
            args = [(a, None) for a in OKDIM["dim"]]
            i = rng.randrange(3)
            n, v = args[i][0].split(" = ")
            args[i] = (f"{n} = {k}({v})", "x")
            t.add("dim(")
            at = [emit_args(t, args, ",", ");")["x"]]
        out.append(Mistake("points for " + k, first, t.line, at, ["point", "circle", "center", "near", "empty"]))
    t.add("}")
    return out


def said(err, fname):
    """[(line, message)] for what is reported about the script."""
    out = []
    for l in err.split(b"\n"):
        m = re.match(rb"(?:\([^()]*:\d+\) )?" + re.escape(fname) + rb":(\d+): (.*)$", l)
        if m:
            out.append((int(m[1]), m[2]))
    return out


def judge(env, case, r, mistakes, spans_ok=()):
    fname = os.fsencode(case.script_name)
    if not mistakes:
        if not r.ok:
            env.o.bad("refused", f"nothing is wrong but rc={r.rc}: {r.err[-300:]!r}", case)
            return False
        s = said(r.err, fname)
        if s or re.search(rb"^error ", r.err, re.M):
            env.o.bad("noise", f"nothing is wrong but it complains: {s or r.err[-300:]}", case)
            return False
        env.o.inc("scripts without mistakes")
        return True
    if r.rc != 1:
        env.o.bad("status", f"exit status {r.rc} despite {[m.what for m in mistakes]}", case)
        return False
    s = said(r.err, fname)
    for m in mistakes:
        if m.optional:
            continue
        hits = [x for x in s if x[0] in m.at]
        if not hits:
            env.o.bad("silent", f"nothing is reported at line {m.at} for {m.what} (lines {m.first}..{m.last}); reported: {s[:8]}", case)
            return False
        if m.words and not any(w.encode() in x[1] for w in m.words for x in s if m.first <= x[0] <= m.last):
            env.o.bad("vague", f"{m.what} at line {m.at}: none of {m.words} is mentioned in {hits}", case)
            return False
        env.o.inc("mistakes located")
        env.o.inc("mistake: " + m.what.split(" ")[0])
    for ln, msg in s:
        if not any(m.first <= ln <= m.last for m in mistakes) and ln not in spans_ok:
            env.o.bad("blamed", f"line {ln} is blamed ({msg[:80]!r}) but the mistakes are {[(m.what, m.first, m.last) for m in mistakes]}", case)
            return False
    return True


CUBE = G.stl(G.prism(G.ngon(0, 0, 1, 8), 0, 1))


def c03_many(env):
    """As many mistakes as counters of some kinds can't hold, each on a line of its own."""
    rng = env.rng
    n = rng.choice([255, 256, 256, 256, 512, 1024, rng.randint(60, 1100)]) if rng.random() < .9 else 65536
    kind = rng.choice(["text", "draw", "page", "load", "dim", "mixed"])
    L = ['load m = "m.stl";'] if kind != "load" else ["//"]
    if kind not in ("page", "load"):
        L.append("page {" + (" draw m {" if kind == "dim" else ""))
    mistakes = []
    for k in range(n):
        x, w = {"text": ('text["x"] { zz = 1; }', "zz"), "draw": ("draw zz { }", "zz"), "page": ("page { zz = 1; }", "zz"),
                "load": (f'load zz{k} = "none.stl";', "zz"), "dim": ("dim(at = [0,0,0], dir = [1,0,0], from = [0,0,0]);", "to"),
                "mixed": rng.choice([('text["x"] { zz = 1; }', "zz"), ("draw zz { }", "zz"), ("draw m { zz = 1; }", "zz"), ("draw m { dia(); }", "at")])}[kind]
        L.append(x)
        mistakes.append(Mistake("one of many", len(L), len(L), [len(L)], [w]))
    L.append("page {}" if kind == "load" else "" if kind == "page" else "} }" if kind == "dim" else "}")
    case = Case("\n".join(L) + "\n", {"m.stl": CUBE}, QUIET)
    r = env.run(case)
    if r.rc != 1:
        env.o.bad("status", f"exit status {r.rc} despite {n} mistakes ({kind})", case)
        return
    by = {}
    for ln, msg in said(r.err, b"s.script"):
        by.setdefault(ln, []).append(msg)
    for m in mistakes:
        got = by.pop(m.first, [])
        if not any(m.words[0].encode() in x for x in got):
            env.o.bad("silent", f"of {n} mistakes ({kind}), the one at line {m.first} is not reported: {got}", case)
            return
    # (a page or a draw block may be named for what is in it)
    own = {2 if kind == "dim" else 0, 2 if kind in ("text", "draw", "mixed") else 0}
    rest = set(by) - own
    if rest:
        env.o.bad("blamed", f"lines {sorted(rest)[:5]} are blamed beside the {n} mistakes ({kind})", case)
        return
    env.o.inc("one of many mistakes", n)
    env.o.note(case.digest())


def c03(env):
    rng = env.rng
    if env.index % 100 == 50:
        return c03_many(env)
    t = Text(rng)
    sname = rng.choice(["s.script", "a b.script", "d/x.script"])
    files = {"m.stl": CUBE, "bad.stl": "solid\nrubbish\nendsolid\n", "e.stl": "solid\nendsolid\n"}
    mistakes, page_lines = [], set()
    if env.index % 4 == 0:
        # loading
        seen = []
        for k in range(rng.randint(1, 7)):
            t.brk()
            what = rng.choice(["ok", "ok", "missing", "bad", "twice"])
            n = f"m{k}"
            if what == "twice" and not seen:
                what = "ok"
            if what == "twice":
                n = rng.choice(seen)
            f = {"ok": "m.stl", "missing": rng.choice(["none.stl", "m.stl2", "M.stl", "x/m.stl"]), "bad": "bad.stl", "twice": "m.stl"}[what]
            first = t.line
            t.add("load")
            t.brk()
            t.add(n)
            t.brk()
            t.add("=")
            t.brk()
            t.add(f'"{f}"')
            t.brk()
            t.add(";")
            seen.append(n)
            if what != "ok":
                mistakes.append(Mistake(f"{what} load", first, t.line, [first], [n]))
        t.brk()
        if rng.random() < .3:
            # what else is wrong may be left for later
            t.add("page {")
            first = t.line
            late = one_text(t, True) if rng.random() < .5 else one_draw(t, rng.choice(["draw", "both", 1]))
            t.add("}\n")
            # (the model may be any or none)
            late = [any_of("late", late)]
            late[0].optional = any(not m.optional for m in mistakes)
            late[0].first = first
            if not late[0].optional:
                # no model m here
                late[0].at += list(range(late[0].first, late[0].last + 1))
                late[0].words = []
            mistakes += late
        else:
            t.add("page {}\n")
    else:
        t.add('load m = "m.stl"; load e = "e.stl";')
        many = rng.random() < .85
        for _ in range(rng.randint(1, 4)):
            t.brk()
            first = t.line
            t.add("page")
            t.brk()
            t.add("{")
            args, mark, what, words = [], None, None, []
            if rng.random() < .5:
                args.append(('name = "x"', None))
            if many and rng.random() < .25:
                what = rng.choice(["unknown", "duplicate", "type"])
                if what == "unknown":
                    n = rng.choice(["Name", "title", "scale", "@", "size"])
                    args.append(("@ [1,2]" if n == "@" else n + " = " + rng.choice(["1", '"s"', "[1,2]", "[1,2,3]", "1:2"]), "x"))
                    words = [n]
                elif what == "duplicate":
                    args = [('name = "x"', None), ('name = "y"', "x")]
                    words = ["name"]
                else:
                    args = [("name = " + rng.choice(["1", "[1,2]", "[1,2,3]", "1:2"]), "x")]
                    words = ["name"]
                mark = "x"
            items = []
            for _ in range(rng.randint(0, 3)):
                k = rng.random()
                if k < .1 and many:
                    items.append(("empty", None))
                elif k < .25:
                    items.append(("text", many and rng.random() < .4))
                elif k < .45 and many:
                    items.append(("draw", rng.choice(["draw", "draw", "both"])))
                else:
                    items.append(("draw", rng.choice([0, 0, 1, 2]) if many else 0))
            # properties keep their order among themselves
            seq = [("arg", a) for a in args]
            for it in items:
                seq.insert(rng.randint(0, len(seq)), it)
            where, mine = {}, []
            for k, x in seq:
                t.brk()
                if k == "arg":
                    if x[1]:
                        where[x[1]] = t.line
                    t.add(x[0] + ";")
                elif k == "text":
                    mine += one_text(t, x)
                elif k == "empty":
                    mine += empty_draw(t)
                else:
                    mine += one_draw(t, x)
            t.brk()
            t.add("}")
            if what:
                mistakes.append(Mistake(f"{what} of page", first, t.line, [where[mark]], words))
            mistakes += mine
        t.add("\n")
    case = Case("".join(t.b), files, QUIET, sname)
    r = env.run(case)
    # only the page's own line may be named beside the mistakes in it: spans cover that
    if judge(env, case, r, mistakes):
        env.o.note(case.digest())
        env.o.sample(case.script.decode("latin-1") + "\n" + r.err.decode("latin-1")[:800])


# ------------------------------------------------------------------ C18
def report_units(env):
    """The formatter by itself."""
    rng = env.rng
    exe = env.runner.bins["plain"] + "/report"
    if not os.path.exists(exe):
        env.o.inc("formatter not reachable")
        return
    recs, inp = [], b""
    num = lambda: rng.choice([0, 1, 1, 2, 7, 80, rng.randint(0, 10 ** 6), 2147483647, -1])
    for _ in range(40):
        has = rng.random() < .85
        n = docs.hostile(rng, 4).replace(b"\0", b"") if has else b""
        m = docs.hostile(rng, 6).replace(b"\0", b"").replace(b"\1", b"")
        n = n.replace(b"\1", b"")
        if rng.random() < .05:
            m = m + b"x" * rng.choice([1000, 5000, 70000])
        bl, bc = num(), num()
        el, ec = (bl if rng.random() < .5 else num()), num()
        recs.append((has, n, m, bl, bc, el, ec))
        inp += b"%d %d %d %d %d %d %d\n" % (has, len(n), len(m), bl, bc, el, ec) + n + m
    p = subprocess.run([exe], input=inp, capture_output=True, timeout=60)
    env.o.runs += 1
    got = p.stderr.split(b"\x01\n")[:-1]
    if p.returncode or len(got) != len(recs):
        env.o.bad("formatter", f"{len(got)} of {len(recs)} reports, exit status {p.returncode}")
        return
    for (has, n, m, bl, bc, el, ec), g in zip(recs, got):
        f = n if has else b"??"
        want = (b"error %s:%d:[%d,%d]: %s\n" % (f, bl, bc, ec, m)) if bl == el else \
            (b"error %s:%d:%d to %d:%d: %s\n" % (f, bl, bc, el, ec, m))
        if g != want:
            env.o.bad("formatter", f"reported {g[:200]!r}, not {want[:200]!r}")
            return
        env.o.inc("reports compared")
    env.o.note(inp)


def place(b, off):
    """1-based line and column of byte `off`."""
    line = b.count(b"\n", 0, off) + 1
    return line, off - (b.rfind(b"\n", 0, off) + 1) + 1


def c18(env):
    rng = env.rng
    if env.index % 10 == 0:
        return report_units(env)
    doc, files = docs.document(rng, pages=rng.choice([1, 1, 2]), max_draws=2)
    if not doc["pages"][0]["items"]:
        doc["pages"][0]["items"].append({"text": S(b"hello"), "args": []})
    W = docs.Writer(rng, shuffle=False)
    W.doc(doc)
    toks = list(W.t)
    i0 = toks.index(b"page")
    k = rng.randrange(4)
    kind = None
    if k == 0:
        # a character that's no part of any token, anywhere
        i = rng.randrange(len(toks) + 1)
        bad = rng.choice([b"$", b"#", b"!", b"%", b"^", b"&", b"*", b"~", b"`", b"|", b"?", b"<", b">", b"'", b"\\", b"\x80", b"\xff", b"/", b"\x01", b"\0"])
        toks.insert(i, bad)
        kind = "illegal"
    elif k == 1:
        # a keyword that can't be here, inside of a page
        depth, spots = 0, []
        for i, x in enumerate(toks):
            if depth:
                spots.append(i)
            depth += (x == b"{") - (x == b"}")
        i = rng.choice(spots)
        toks.insert(i, rng.choice([b"load", b"page"]))
        kind = "misplaced"
    elif k == 2:
        # a number that can't be represented
        spots = [i for i, x in enumerate(toks) if re.fullmatch(rb"[-+]?[0-9.]+", x)]
        if not spots:
            return
        i = rng.choice(spots)
        toks[i] = rng.choice([b"", b"-", b"+"]) + rng.choice([b"9" * 39, b"1" + b"0" * 39, b"4" * 60 + b".5", b"7" * 400])
        kind = "unrepresentable"
    else:
        # a scale that makes no sense
        spots = [i for i, x in enumerate(toks) if x == b":"]
        if not spots:
            return
        i = rng.choice(spots)
        j = rng.choice([i - 1, i + 1])
        toks[j] = rng.choice([b"0", b"-1", b"1.5", b"0.25", b"4000000000", b"-0"])
        kind = "scale"
        first, last = i - 1, i + 1
    if kind != "scale":
        first = last = i
    # lay it out, remembering where each token went
    out, at, prev = bytearray(), [], b""
    for x in toks:
        need = bool(prev) and (docs.wordy(prev[-1:]) and docs.wordy(x[:1]) or
                               (docs.wordy(prev[-1:]) or prev[-1:] in b".") and x[:1] in b".0123456789")
        # nothing may run into the bad token
        if x == b"/" or prev == b"/" or kind == "unrepresentable" and (x is toks[i] or prev is toks[i]):
            need = True
        sp = docs.space(rng, need)
        if (x == b"/" or prev == b"/") and not sp.strip(b" \t\r\n") == b"":
            sp = b" "
        if prev == b"/":
            sp = b" "
        out += sp
        at.append(len(out))
        out += x
        prev = x
    src = bytes(out)
    b, e = at[first], at[last] + len(toks[last])
    bl, bc = place(src, b)
    el, ec = place(src, e)
    sname = rng.choice(["s.script", "dir/my script", "x:1:y"])
    case = Case(src, files, QUIET, sname)
    r = env.run(case)
    if r.rc != 1:
        env.o.bad("accepted", f"a script with {kind} {toks[first]!r} at {bl}:{bc} gave exit status {r.rc}", case)
        return
    f = os.fsencode(sname)
    want = (b"error %s:%d:[%d,%d]: " % (f, bl, bc, ec)) if bl == el else (b"error %s:%d:%d to %d:%d: " % (f, bl, bc, el, ec))
    got = [l for l in r.err.split(b"\n") if l.startswith(b"error ")]
    if not got:
        env.o.bad("silent", f"{kind} {toks[first]!r} at {bl}:{bc} is refused without saying where: {r.err[-300:]!r}", case)
        return
    if not got[0].startswith(want):
        env.o.bad("location", f"{kind} {toks[first][:30]!r} stands at {bl}:{bc} to {el}:{ec} (expected {want!r}) but it says {got[0][:120]!r}", case)
        return
    env.o.inc("located: " + kind)
    env.o.note(case.digest())
    env.o.sample(repr(src[max(0, b - 60):e + 10]) + " -> " + got[0].decode("latin-1"))


# ------------------------------------------------------------------ C19
def ask(env, sets):
    exe = env.runner.bins["plain"] + "/circle"
    inp = "\n".join(" ".join([str(len(s))] + [f"{float(x).hex()} {float(y).hex()}" for x, y in s]) for s in sets) + "\n"
    p = subprocess.run([exe], input=inp.encode(), capture_output=True, timeout=120)
    env.o.runs += 1
    if p.returncode:
        env.o.bad("died", f"fitting {len(sets)} point sets ended with {p.returncode}: {p.stderr[-300:]!r}")
        return None
    out = []
    for l in p.stdout.decode().split("\n"):
        if l:
            a = l.split()
            out.append((a[0] == "1", *(float.fromhex(v) if "n" not in v else float(v) for v in a[1:])))
    return out


def kasa(P):
    """The documented fit, in extended precision about the mean."""
    P = np.array(P, np.longdouble)
    m = P.mean(axis=0)
    s = np.abs(P - m).max()
    if s == 0:
        return None
    Q = (P - m) / s
    A = np.column_stack([Q, np.full(len(Q), np.longdouble(.5))])
    y = (Q * Q).sum(axis=1) / 2
    M = A.T @ A
    b = A.T @ y
    # 3x3 by elimination, longdouble has no LAPACK
    M = np.column_stack([M, b])
    for i in range(3):
        j = i + int(np.argmax(np.abs(M[i:, i])))
        M[[i, j]] = M[[j, i]]
        if M[i, i] == 0:
            return None
        M[i] = M[i] / M[i, i]
        for k in range(3):
            if k != i:
                M[k] = M[k] - M[i] * M[k, i]
    x = M[:, 3]
    r2 = x[2] + x[0] ** 2 + x[1] ** 2
    if r2 <= 0:
        return None
    return float(x[0] * s + m[0]), float(x[1] * s + m[1]), float(np.sqrt(r2) * s)


def ring_points(rng, noise):
    n = rng.choice([3, 3, 4, 5, 6, 8, 16, 31, 64, 100, 500])
    Rr = 10 ** rng.uniform(-4, 5)
    span = rng.choice([2 * math.pi, math.pi, 2])
    a0 = rng.uniform(0, 7)
    c = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * Rr * rng.choice([0, 1, 100, 1e4])
    ang = [a0 + span * (k + rng.uniform(-.3, .3)) / n for k in range(n)]
    P = [(c[0] + Rr * (1 + rng.uniform(-noise, noise)) * math.cos(a), c[1] + Rr * (1 + rng.uniform(-noise, noise)) * math.sin(a)) for a in ang]
    if rng.random() < .3:
        # some points count more than once, not all as often
        P += [rng.choice(P) for _ in range(rng.randint(1, n))]
    rng.shuffle(P)
    return P, c, Rr, len(P)


def c19(env):
    rng = env.rng
    exe = env.runner.bins["plain"] + "/circle"
    if env.index % 3 and os.path.exists(exe):
        sets, facts = [], []
        for _ in range(30):
            k = rng.randrange(8)
            if k < 2:
                P, c, Rr, n = ring_points(rng, 0)
                sets.append(P)
                off = float(np.abs(c).max())
                facts.append(("exact", (c[0], c[1], Rr), Rr * 1e-6 + 2e-12 * off))
            elif k < 4:
                P, c, Rr, n = ring_points(rng, rng.choice([.001, .02, .1]))
                off = float(np.abs(c).max())
                sets.append(P)
                facts.append(("fit", kasa(P), Rr * 1e-5 + 2e-11 * off))
            elif k == 4:
                # moved, turned, mirrored, scaled, doubled: the answer goes along
                P, c, Rr, n = ring_points(rng, .05)
                q = kasa(P)
                th, s = rng.uniform(0, 7), 10 ** rng.uniform(-2, 2)
                mirror = rng.choice([1, -1])
                mv = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * Rr * s * rng.choice([0, 10, 1000])
                M = np.array([[math.cos(th), math.sin(th)], [-math.sin(th), math.cos(th)]]) @ np.diag([1, mirror]) * s
                P2 = [tuple(np.array(p) @ M + mv) for p in P] * rng.choice([1, 1, 2, 3])
                rng.shuffle(P2)
                sets.append(P2)
                if q is None:
                    facts.append(("any", None, 0))
                    continue
                c2 = np.array(q[:2]) @ M + mv
                off = float(np.abs(np.array(P2)).max())
                facts.append(("moved", (c2[0], c2[1], q[2] * s), Rr * s * 1e-5 + 2e-11 * off))
            elif k == 5:
                j = rng.randrange(3)
                if j == 0:
                    sets.append([(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(rng.randint(0, 2))])
                    facts.append(("few", None, 0))
                elif j == 1:
                    # exactly on a line: nothing here needs rounding
                    p, d = (rng.randint(-20, 20), rng.randint(-20, 20)), rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (3, -7), (0, 0)])
                    m = rng.choice([1, 1, .5, .25, 8])
                    sets.append([((p[0] + d[0] * t) * m, (p[1] + d[1] * t) * m) for t in (rng.randint(-9, 9) for _ in range(rng.randint(3, 12)))])
                    facts.append(("line", None, 0))
                else:
                    P = ring_points(rng, .05)[0][:20]
                    for _ in range(rng.randint(1, 3)):
                        i = rng.randrange(len(P))
                        v = rng.choice([math.nan, math.inf, -math.inf])
                        P[i] = rng.choice([(v, P[i][1]), (P[i][0], v), (v, v)])
                    sets.append(P)
                    facts.append(("not finite", None, 0))
            else:
                # no circle: whatever is claimed must at least be a number
                n = rng.randint(3, 12)
                p, d = np.array([rng.gauss(0, 5), rng.gauss(0, 5)]), np.array(rng.choice([(1, 0), (0, 1), (1, 1), (rng.gauss(0, 1), rng.gauss(0, 1)), (0, 0)]))
                if rng.random() < .5:
                    p = p.round()
                m = rng.choice([1, 1, 1e-150, 1e150, 1e300])
                sets.append([tuple((p + d * rng.choice([rng.gauss(0, 1), rng.randint(-3, 3)])) * m) for _ in range(n)])
                facts.append(("none", None, 0))
        got = ask(env, sets)
        if got is None:
            return
        if len(got) != len(sets):
            env.o.bad("answers", f"{len(got)} answers for {len(sets)} questions")
            return
        for P, (kind, want, tol), g in zip(sets, facts, got):
            if kind in ("few", "line", "not finite"):
                if g[0]:
                    env.o.bad(kind.replace(" ", "-"), f"a circle was found for the points {P}: {g}")
                    return
            elif kind in ("none", "any") or want is None:
                if g[0] and not all(map(math.isfinite, g[1:])):
                    env.o.bad("nan", f"claims to have found {g} for {P}")
                    return
            elif not g[0]:
                env.o.bad("missed", f"no circle was found for {len(P)} points on one: {kind} {want} {P[:5]}")
                return
            elif max(abs(a - b) for a, b in zip(g[1:], want)) > tol:
                env.o.bad("wrong", f"{kind}: found {g[1:]} where {want} (+-{tol:.2g}) is right, {len(P)} points {P[:5]}")
                return
            env.o.inc("fits: " + kind)
        env.o.note(tuple(map(tuple, sets)))
        env.o.sample(f"{facts[0]} {sets[0][:6]} -> {got[0]}")
        return
    # through the whole program: the diameter of a disc whose rim isn't quite round
    n = rng.choice([5, 8, 12, 20, 40])
    noise = rng.choice([0, 0, .005, .01])
    Rr = rng.uniform(.3, 3)
    c = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5)]) * rng.choice([0, 1, 10])
    ring = [(c[0] + Rr * (1 + rng.uniform(-noise, noise)) * math.cos(a), c[1] + Rr * (1 + rng.uniform(-noise, noise)) * math.sin(a))
            for a in (2 * math.pi * (k + rng.uniform(-.2, .2) * (noise > 0)) / n for k in range(n))]
    ring = [(round(x, 6), round(y, 6)) for x, y in ring]
    k = rng.choice([1, 1, .1, 10])
    tris = [t * k for t in G.prism(ring, 0, 1)]
    P = np.unique(np.array(tris).reshape(-1, 3)[:, :2], axis=0)
    tl = G.Vec([c[0] * k + rng.uniform(-.3, .3) * Rr * k, c[1] * k + rng.uniform(-.3, .3) * Rr * k, 0], 6)
    # the circle through the three points nearest the place pointed at selects the rest
    d = np.hypot(*(P - tl.v[:2]).T)
    o = np.argsort(d)
    if len(P) < 4 or d[o[3]] - d[o[2]] < 1e-6 * k * Rr:
        return
    q = kasa(P[o[:3]])
    if q is None:
        return
    dd = np.hypot(*(P - np.array(q[:2])).T) / q[2]
    if ((np.abs(dd - .9) < 1e-3) | (np.abs(dd - 1.1) < 1e-3)).any():
        return
    sel = P[(dd > .9) & (dd < 1.1)]
    if len(sel) < 3:
        return
    # the model is a prism: as a rule only the top's corners are seen, once for each
    w = kasa(sel)
    if w is None:
        return
    case = mkcase({"m": tris}, [G.page([f'draw m {{ dia(at = {tl}, center = {tl}, dir = [1,0,0], fmt = "%.6f"); '
                                        f'rad(at = {tl}, center = {tl}, dir = [0,1,0], fmt = "%.6f"); }}'])])
    r = env.expect_ok(case, "a diameter and a radius")
    if not r:
        return
    lab = [t.s for t in r.pages()[0].texts if t.s]
    try:
        vals = sorted([float(lab[0][1:]) / (2 if lab[0][:1] == b"\xe9" else 1), float(lab[1][1:]) / (2 if lab[1][:1] == b"\xe9" else 1)])
    except (ValueError, IndexError):
        env.o.bad("labels", f"labels {lab}", case)
        return
    if max(abs(v - w[2]) for v in vals) > 2e-6 + 1e-5 * w[2]:
        env.o.bad("program", f"radius {vals} for points whose fit is {w}", case)
        return
    env.o.inc("fits: through the program")
    env.o.note(case.digest())
