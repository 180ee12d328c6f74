"""Whole documents: a tree the checks know the meaning of, and many ways to write it."""
import math
import numpy as np
import gen as G, ref as R
import p_dims as D
from common import *


class S(bytes):
    """A string value."""


class Fn:
    def __init__(self, name, arg):
        self.name, self.arg = name, arg


class Sc:
    def __init__(self, a, b):
        self.a, self.b = a, b


# ------------------------------------------------------------------ writing
def lit_bytes(b, rng=None):
    out = bytearray(b'"')
    for c in b:
        ch = bytes([c])
        if c == 10:
            out += b"\\n"
        elif ch in (b"\\", b'"'):
            out += b"\\" + ch
        elif ch in (b"'", b"?") and rng is not None and rng.random() < .5:
            out += b"\\" + ch
        else:
            out += ch
    return bytes(out + b'"')


class Writer:
    """rng None: the plain way.  With an rng: any other way of writing the same."""

    def __init__(self, rng=None, shuffle=True):
        self.rng = rng
        self.shuffle = shuffle and rng is not None
        self.t = []

    def num(self, n):
        s = n.s if isinstance(n, G.Num) else str(n)
        if self.rng is None or self.rng.random() < .5:
            return s.encode()
        neg = s.startswith("-")
        u = s.lstrip("-")
        k = self.rng.randrange(6)
        if k == 0 and not neg:
            u = "+" + u
        elif k == 1 and "." in u:
            u = u + "0" * self.rng.choice([1, 1, 2, 3, 20, 90])
        elif k == 2 and "." not in u:
            u = u + self.rng.choice([".", ".0", ".00"])
        elif k == 3:
            u = "0" * self.rng.choice([1, 1, 2, 20, 90]) + u
        elif k == 4 and u.startswith("0.") and len(u) > 2:
            u = u[1:]
        elif k == 5 and u.startswith("0.") and not neg:
            u = "+" + u[1:]
        return (("-" if neg else "") + u).encode()

    def string(self, b, one=False):
        if self.rng is None or one or self.rng.random() < .5 or len(b) < 2:
            self.t.append(lit_bytes(b, self.rng))
            return
        cuts = sorted(self.rng.randint(0, len(b)) for _ in range(self.rng.randint(1, 4)))
        for a, z in zip([0] + cuts, cuts + [len(b)]):
            self.t.append(lit_bytes(b[a:z], self.rng))

    def value(self, v):
        if isinstance(v, S):
            self.string(v)
        elif isinstance(v, G.Vec):
            self.t.append(b"[")
            for i, n in enumerate(v.n):
                if i:
                    self.t.append(b",")
                self.t.append(self.num(n))
            self.t.append(b"]")
        elif isinstance(v, tuple):
            self.value(G_vec(v))
        elif isinstance(v, Fn):
            self.t += [v.name.encode(), b"("]
            self.value(v.arg)
            self.t.append(b")")
        elif isinstance(v, Sc):
            self.t += [self.num(v.a), b":", self.num(v.b)]
        elif isinstance(v, G.Num):
            self.t.append(self.num(v))
        else:
            raise TypeError(v)

    def arg(self, a):
        n, v = a
        if n == "@":
            self.t.append(b"@")
        else:
            self.t += [n.encode(), b"="]
        self.value(v)

    def mix(self, args, rest):
        """Properties may stand anywhere among the things whose order matters."""
        args = list(args)
        if not self.shuffle:
            return [("arg", a) for a in args] + list(rest)
        self.rng.shuffle(args)
        out = list(rest)
        for a in args:
            out.insert(self.rng.randint(0, len(out)), ("arg", a))
        return out

    def draw(self, d):
        self.t += [b"draw", d["model"].encode(), b"{"]
        for k, x in self.mix(d["args"], [("dim", y) for y in d["dims"]]):
            if k == "arg":
                self.arg(x)
                self.t.append(b";")
            else:
                kind, args = x
                args = list(args)
                if self.shuffle:
                    self.rng.shuffle(args)
                self.t += [kind.encode(), b"("]
                for i, a in enumerate(args):
                    if i:
                        self.t.append(b",")
                    self.arg(a)
                self.t += [b")", b";"]
        self.t.append(b"}")

    def page(self, p):
        self.t += [b"page", b"{"]
        for k, x in self.mix(p["args"], [("item", y) for y in p["items"]]):
            if k == "arg":
                self.arg(x)
                self.t.append(b";")
            elif "model" in x:
                self.draw(x)
            else:
                self.t += [b"text", b"["]
                self.string(x["text"])
                self.t += [b"]", b"{"]
                for a in x["args"]:
                    self.arg(a)
                    self.t.append(b";")
                self.t.append(b"}")
        self.t.append(b"}")

    def load(self, n, f):
        self.t += [b"load", n.encode(), b"="]
        self.string(f.encode(), one=True)
        self.t.append(b";")

    def doc(self, doc):
        ld = list(doc["models"])
        if self.shuffle:
            self.rng.shuffle(ld)
        items = [("page", p) for p in doc["pages"]]
        if not self.shuffle:
            items = [("load", l) for l in ld] + items
        else:
            for l in ld:
                items.insert(self.rng.randint(0, len(items)) if self.rng.random() < .3 else 0, ("load", l))
        for k, x in items:
            if k == "load":
                self.load(x, doc.get("file", {}).get(x, x + ".stl"))
            else:
                self.page(x)
        return self.text()

    def text(self):
        out = bytearray()
        prev = b""
        for t in self.t:
            if self.rng is None:
                if t in (b";", b",", b")", b"]", b":"):
                    pass
                elif out:
                    out += b" "
                out += t
                if t in (b";", b"{", b"}"):
                    out += b"\n"
            else:
                need = bool(prev) and (wordy(prev[-1:]) and wordy(t[:1]) or
                                       (wordy(prev[-1:]) or prev[-1:] in b".") and t[:1] in b".0123456789")
                out += space(self.rng, need)
                out += t
            prev = t
        if self.rng is not None:
            out += space(self.rng, False)
            if self.rng.random() < .2:
                out += b"// the end, and no line break"
        elif out:
            out += b"\n"
        return bytes(out)


def wordy(c):
    return c.isalnum() or c == b"_"


def space(rng, need):
    k = rng.random()
    if k < .45:
        return b" " if need or rng.random() < .3 else b""
    out = b""
    for _ in range(rng.randint(1, 3)):
        out += rng.choice([b" ", b"\t", b"\n", b"\r\n", b"  ", b"\n\n", b"// a remark; } \"\n", b"//\n", b" // @[1,2] page {\r\n", b"/////\n"])
    return out


def G_vec(v):
    r = G.Vec.__new__(G.Vec)
    r.n = list(v)
    r.v = np.array([n.v for n in v])
    return r


# ------------------------------------------------------------------ making
HOSTILE = [b"(", b")", b"\\", b"%", b"((", b"))", b"\\n", b"\\(", b"\\051", b"%%EOF", b"$0", b"$$", b"<<", b">>", b"{", b"}", b"[",
           b"/x", b"<41>", b"\"", b"'", b"?", b"//", b" ", b"  ", b"\t", b"\xe9", b"\xff", b"\x80", b"\x01", b"\x7f", b"\x00",
           b"showpage", b") show (", b"\\\\", b"~>", b"\x0c", b"\\r", b"\r", b"\r", b"%d %s", b"\xc3\xa9"]


def hostile(rng, n=8, nl=True):
    out = b""
    for _ in range(rng.randint(0, n)):
        k = rng.random()
        if k < .5:
            out += rng.choice(HOSTILE)
        elif k < .85:
            out += bytes(rng.choice(b"abcXYZ019 .,-+") for _ in range(rng.randint(1, 6)))
        elif k < .93 and nl:
            out += b"\n" * rng.choice([1, 1, 2])
        else:
            out += bytes([rng.choice([c for c in range(256) if c != 10])])
    return out


def a_string(rng, nl=True):
    k = rng.random()
    if k < .35:
        return S(bytes(rng.choice(b"abc defXYZ 0123") for _ in range(rng.randint(0, 20))))
    if k < .95:
        return S(hostile(rng, 8, nl))
    return S(hostile(rng, 120, nl))


def dims_for(rng, s, tgt=None, kinds=("dim", "angle", "dia", "rad"), simple_fmt=False):
    kind = rng.choice([k for k in kinds if tgt is not None or k in ("dim", "angle")])
    fm = random_fmt(rng) if not simple_fmt else None
    fmt = [] if fm is None else [("fmt", S(fm.encode("utf-8", "surrogateescape")))]
    P = lambda: s.pt(rng)[0]
    if kind == "dim":
        V = s.proj.t.reshape(-1, 3)
        near = lambda v: Fn("near", v) if len(V) and rng.random() < .3 else v
        return kind, [("at", P()), ("from", near(P())), ("to", near(P())), ("dir", s.dir(rng)[0])] + fmt
    if kind == "angle":
        got = D.angle_parts(rng, s)
        if not got:
            return dims_for(rng, s, None, ("dim",), simple_fmt)
        return kind, angle_args(rng, s) + fmt
    while True:
        dl, dv = s.dir(rng)
        if np.hypot(dv[0], dv[1]) > 1e-12:
            break
    return kind, [("at", P()), ("center", Fn("center", tgt) if rng.random() < .3 else tgt), ("dir", dl)] + fmt


def angle_args(rng, s):
    ap, apv = s.pt(rng, 1)
    while True:
        a0, a1 = rng.uniform(0, 6.28), rng.uniform(0, 6.28)
        if abs(math.sin(a1 - a0)) > .1:
            break
    out = [("at", s.pt(rng)[0]), ("apex", ap)]
    for w, a in (("from", a0), ("to", a1)):
        d = np.array([math.cos(a), math.sin(a)]) * s.size * rng.uniform(.3, 2)
        if rng.random() < .5:
            out.append((w + "_dir", inplane(s.M, d, 0, 6)))
        else:
            out.append((w + "_point", inplane(s.M, apv[:2] + d, apv[2], 6)))
    return out


def close_view(rng, v):
    if not isinstance(v, (tuple, list)):
        return rng.choice([v, (G.Num(rng.choice([0, 90, -90, 180])), G.Num(rng.choice([0, 90, 180, .01, .4])))])
    a, b = v[0].v, v[1].v
    k = rng.randrange(6)
    if k == 0:
        return v
    if k == 1:
        a, b = a * rng.choice([1, -1]), b * rng.choice([1, -1])
    elif k == 2:
        a, b = b, a
    elif k == 3:
        a, b = a + rng.choice([180, -180, 90, 360]), b + rng.choice([0, 180, -90])
    else:
        d = rng.choice([.01, .01, .03, .1, .4])
        a, b = a + rng.choice([0, d, -d]), b + rng.choice([0, d, -d])
    return (G.Num(a, 3), G.Num(b, 3))


def document(rng, pages=None, models=None, simple_fmt=False, max_draws=3, circles=True):
    """-> (tree, {file: text}).  Every draw keeps its Setup under 'setup'."""
    ms, tg = {}, {}
    for i in range(models or rng.randint(1, 3)):
        n = rng.choice(["m", "n", "part", "A_1", "draws", "X", "load2", "_", "pageview"]) + (str(i) if rng.random() < .6 or i else "")
        while n in ms:
            n += "x"
        if circles and rng.random() < .3:
            C = D.Circles(rng)
            ms[n] = C.tris
            tg[n] = C
        else:
            ms[n] = some_model(rng)
    doc = {"models": list(ms), "pages": [], "file": {n: n + ".stl" for n in ms}}
    before = {}
    for _ in range(pages if pages is not None else rng.choice([1, 1, 2, 3, 4])):
        p = {"args": [], "items": []}
        if rng.random() < .6:
            p["args"].append(("name", a_string(rng)))
        for _ in range(rng.randint(0, max_draws)):
            if rng.random() < .35:
                t = {"text": a_string(rng), "args": []}
                if rng.random() < .7:
                    t["args"].append(("@", G.Vec([rng.uniform(-5, 5), rng.uniform(-4, 4)], 3)))
                p["items"].append(t)
                continue
            n = rng.choice(list(ms))
            C = tg.get(n)
            if C:
                s = C.setup(rng)
            elif n in before and rng.random() < .4:
                # the same model in nearly the same view, or one that has much in common with it
                s = D.Setup(rng, ms[n], close_view(rng, before[n]))
            else:
                s = D.Setup(rng, ms[n])
                before[n] = s.view
            d = {"model": n, "args": [], "dims": [], "setup": s}
            if s.sc:
                d["args"].append(("scale", Sc(*s.sc)))
            if s.at is not None:
                d["args"].append(("@", s.at))
            if s.view is not None:
                d["args"].append(("view", S(s.view.encode()) if isinstance(s.view, str) else G_vec(s.view)))
            if len(s.proj.t):
                tgt = C.target(rng, s) if C else None
                for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                    d["dims"].append(dims_for(rng, s, tgt, simple_fmt=simple_fmt))
            p["items"].append(d)
        doc["pages"].append(p)
    return doc, {n + ".stl": G.stl(t) for n, t in ms.items()}


def plain(doc):
    return Writer().doc(doc)
