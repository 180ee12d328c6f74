"""Shared by the checks: documents, reading a page back, formats."""
import math
import numpy as np
import gen as G, ref as R
from core import Case

QUIET = ["--notimestamp", "--nonumber_pages"]
BASE_DY = 805 / 2 * 8 / 1600      # how far centred text's baseline sits under its centre


def loads(models):
    return "".join(f'load {n} = "{n}.stl";\n' for n in models)


def mkcase(models, pages, args=(), quiet=True, company=None, bodies=(), **kw):
    """models: {name: triangles or STL text}; pages: page texts.
    With company (an rng), sometimes other pages that nobody asks about are around these."""
    files = {}
    keep = None
    if company is not None and company.random() < .6:
        rng = company
        names = list(models)
        more = {k: others(rng) for k in rng.choice([("q0",), ("zz", "q0"), ("M1",)])}
        its = [(n, t) for n, t in models.items()] + list(more.items())
        rng.shuffle(its)
        models = dict(its)
        out, keep = [], []
        while True:
            while rng.random() < .5:
                out.append(bystander(rng, list(more) * 2 + [rng.choice(names)], bodies))
            if len(keep) == len(pages):
                break
            keep.append(len(out))
            out.append(pages[len(keep) - 1])
        pages = out
    for n, t in models.items():
        files[n + ".stl"] = t if isinstance(t, (str, bytes)) else G.stl(t)
    c = Case(loads(models) + "".join(pages), files, [*(QUIET if quiet else []), *args], **kw)
    if keep is not None:
        c.keep = keep, len(pages)
    return c


def others(rng):
    """A small model with circles along z."""
    n = rng.choice([4, 6, 8, 12])
    r = rng.choice([.5, 1, 3])
    return G.prism(G.ngon(rng.choice([0, 0, 5]), rng.choice([0, -2]), r, n, .1), 0, rng.choice([.5, 1, 7]))


def bystander(rng, names, bodies):
    """A page with some of everything on it."""
    parts = []
    num = lambda k=6: rng.choice(["%d", "%.1f", "%.2f"]) % rng.uniform(-k, k)
    pt = lambda: "[" + ",".join(num() for _ in range(3)) + "]"
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < .25:
            parts.append('text["%s"] { %s }' % (rng.choice(["a", "b c", "%f", "5"]), rng.choice(["", "@[1,-2];"])))
        m = rng.choice(names)
        fmt = lambda: fmt_part(random_fmt(rng) if rng.random() < .7 else None)
        dims = []
        near = bool(bodies) or m in ("q0", "zz", "M1")       # (others may show no corner)
        mine = bool(bodies) and rng.random() < .6
        body = rng.choice(list(bodies)) if mine else rng.choice(
            ["", "scale = 1:7;", "@[1,1];", 'view = "Z+";', "scale = 3:1; view = [0,0]; @[-2,3];"])
        for _ in range(rng.randint(0, 3)):
            k = rng.choice(["dim"] if mine else ["dim", "angle", "dia", "rad"])
            if k in ("dia", "rad") and m in ("q0", "zz", "M1"):
                dims.append(f"{k}(at = {pt()}, center = {pt()}, dir = [{num(3)},1.5,0]{fmt()});")
            elif k == "angle":
                dims.append(f"angle(at = {pt()}, apex = {pt()}, from_dir = [{num(3)},1.5,0], to_dir = [1.125,{num(.3)},0]{fmt()});")
            else:
                a, b, c = [(f"near({pt()})" if near and rng.random() < .6 else pt()) for _ in range(3)]
                dims.append(f"dim(at = {a}, from = {b}, to = {c}, dir = [{rng.choice([1, -2])}.03,{rng.choice([-1, 2])}.41,{rng.choice([1, 3])}.37]{fmt()});")
        parts.append(f"draw {m} {{ {body} " + " ".join(dims) + "}")
    return G.page(parts)


def centre(t):
    """Centre of a text that was drawn centred: (x, y)."""
    return np.array([t.at[0] + t.width / 2, t.at[1] + BASE_DY])


def left(t):
    return np.array([t.at[0], t.at[1] + BASE_DY])


def tdiff(a, b):
    """texts of page a that b doesn't have, by bytes and place."""
    rest = [(t.s, t.at) for t in b]
    out = []
    for t in a:
        for i, (s, at) in enumerate(rest):
            if s == t.s and max(abs(at[0] - t.at[0]), abs(at[1] - t.at[1])) < R.tol_at(at):
                rest.pop(i)
                break
        else:
            out.append(t)
    return out, rest


def adiff(a, b):
    rest = list(b)
    out = []
    for x in a:
        for i, y in enumerate(rest):
            if arc_close(x, y):
                rest.pop(i)
                break
        else:
            out.append(x)
    return out, rest


def arc_close(x, y, tol=None):
    t = tol or R.tol_at(x[:3], y[:3])
    if max(abs(x[i] - y[i]) for i in range(3)) > t:
        return False
    da = max(2e-3, math.degrees(t / max(x[2], 1e-9)))
    d0 = (x[3] - y[3] + 180) % 360 - 180
    return abs(d0) < da and abs((x[4] - x[3]) - (y[4] - y[3])) < 2 * da


class Extra:
    """What page b has that page a doesn't: an annotation's own marks."""

    def __init__(self, b, a):
        self.lines, self.lost_lines = R.subtract(b.lines, a.lines)
        self.texts, self.lost_texts = tdiff(b.texts, a.texts)
        self.arcs, self.lost_arcs = adiff(b.arcs, a.arcs)
        self.lost = bool(self.lost_lines or self.lost_texts or self.lost_arcs)


def fmt_values(fmt, v, rel=3e-6, absol=1e-9):
    """Every label value v may have given rounding noise on the way to it."""
    d = abs(v) * rel + absol
    out = set()
    for k in (-1, -.5, 0, .5, 1):
        out.add((fmt % (v + k * d)).encode("utf-8", "surrogateescape"))
    return out


def raw(b):
    """These bytes, in a text that a case writes out."""
    return b.decode("utf-8", "surrogateescape")


def random_fmt(rng):
    """(script text or None, python format)"""
    if rng.random() < .35:
        return None
    flags = "".join(c for c in "-+ 0#" if rng.random() < .12)
    width = str(rng.randint(1, 14)) if rng.random() < .3 else ""
    prec = "." + str(rng.randint(0, 9)) if rng.random() < .8 else ""
    pre = rng.choice(["", "", "", "~", "L=", "(", "a\\b ", "%% ", "x ", raw(b"\xb1"), raw(b"\xc2\xb1\xc2\xa0")])
    post = rng.choice(["", "", "", " mm", ")", '"', "%%", " (ref)", raw(b"\xb0"), raw(b" \xe2\x80\xb3\x80\x80\x80")])
    if rng.random() < .08:
        # a long note
        more = rng.choice(["between the outer faces", " typ. ", "approximately, ", "x" * 30]) * rng.choice([1, 1, 2, 6])
        pre, post = (more + pre, post) if rng.random() < .5 else (pre, post + more)
    return pre + "%" + flags + width + prec + "f" + post


def fmt_part(f):
    return "" if f is None else f", fmt = {G.lit(f)}"


def inplane(M, xy, z=0.0, digits=5):
    """A model space literal that lands on (x, y, z) of the view."""
    p = np.array([xy[0], xy[1], z]) @ M.T
    return G.Vec(p, digits)


def close2(a, b, tol=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    t = R.tol_at(a[:2], b[:2]) if tol is None else tol
    return float(np.abs(a[:2] - b[:2]).max()) <= t


def unit(v):
    return v / np.linalg.norm(v)


def seg(a, b):
    return (float(a[0]), float(a[1]), float(b[0]), float(b[1]))


def some_model(rng):
    k = rng.randrange(4)
    if k == 0:
        t = G.random_solid(rng, rng.uniform(.5, 3))
    elif k == 1:
        t = G.box([0, 0, 0], [rng.uniform(.3, 3) for _ in range(3)])
    elif k == 2:
        t = G.convex(rng, [rng.uniform(-2, 2) for _ in range(3)], rng.uniform(.5, 3), rng.randint(4, 12))
    else:
        t = G.random_scene(rng, 2, rng.uniform(.4, 1.2))
    if rng.random() < .3:
        t = [x * rng.choice([.1, 10, 40]) for x in t]
    return t


def some_scale(rng, size):
    """A scale that keeps a thing of this size on or about the page."""
    for _ in range(20):
        a, b = rng.choice([(1, 1), (1, 2), (2, 1), (3, 2), (1, 10), (1, 25), (5, 1), (7, 3), (1, 100), (10, 1),
                           (rng.randint(1, 9), rng.randint(1, 40))])
        if 30 < size * 72 * a / b < 4000:
            return a, b
    if size * 72 < 4:
        return int(400 / (size * 72)), 1
    return 1, max(1, int(size * 72 / 400))


def size_of(tris):
    p = np.array(tris).reshape(-1, 3)
    return float((p.max(axis=0) - p.min(axis=0)).max())
