"""Workload: solids, STL texts, script texts."""
import math
import numpy as np

NAMED = ["X+", "X-", "Y+", "Y-", "Z+", "Z-"]


def f32(s):
    return float(np.float32(s))


def num(x, digits=4):
    """A script number literal for x (no exponents in the language)."""
    s = f"{x:.{digits}f}"
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


class Num:
    """A literal and the value the language gives it (single precision)."""
    __slots__ = ("s", "v")

    def __init__(self, x, digits=4):
        self.s = num(x, digits)
        self.v = f32(self.s)

    def __str__(self):
        return self.s


class Vec:
    __slots__ = ("n", "v")

    def __init__(self, xs, digits=4):
        self.n = [Num(x, digits) for x in xs]
        self.v = np.array([n.v for n in self.n])

    def __str__(self):
        return "[" + ", ".join(n.s for n in self.n) + "]"


# ------------------------------------------------------------------ solids
# A solid is a list of (3,3) arrays: counter clockwise seen from outside.

def orient_outward_convex(tris, inside):
    out = []
    for t in tris:
        n = np.cross(t[1] - t[0], t[2] - t[0])
        if np.dot(n, t.mean(axis=0) - inside) < 0:
            t = t[[0, 2, 1]]
        out.append(t)
    return out


def box(lo, hi):
    lo, hi = np.array(lo, float), np.array(hi, float)
    return prism([(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])], lo[2], hi[2])


def _area(poly):
    return 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))


def earclip(poly):
    """Indices of triangles of a simple polygon (ccw); may contain bridge pairs."""
    idx = list(range(len(poly)))
    P = [np.array(p, float) for p in poly]
    out = []

    def cr(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    guard = 0
    while len(idx) > 3:
        guard += 1
        if guard > 10000:
            raise ValueError("earclip")
        best = None
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = P[i], P[j], P[l]
            if cr(a, b, c) <= 1e-12:
                continue
            ok = True
            for m in idx:
                if m in (i, j, l):
                    continue
                p = P[m]
                if any((p == q).all() for q in (a, b, c)):
                    continue
                if cr(a, b, p) >= -1e-12 and cr(b, c, p) >= -1e-12 and cr(c, a, p) >= -1e-12:
                    ok = False
                    break
            if ok:
                # prefer fat ears
                la, lb, lc = np.linalg.norm(b - a), np.linalg.norm(c - b), np.linalg.norm(a - c)
                q = cr(a, b, c) / max(la, lb, lc) ** 2
                if best is None or q > best[0]:
                    best = (q, k)
        if best is None:
            raise ValueError("earclip")
        k = best[1]
        out.append((idx[k - 1], idx[k], idx[(k + 1) % len(idx)]))
        idx.pop(k)
    out.append(tuple(idx))
    return out


def prism(poly, z0, z1, hole=None):
    """Extrusion of a simple polygon, optionally with one hole (list of points)."""
    poly = [tuple(map(float, p)) for p in poly]
    if _area(poly) < 0:
        poly = poly[::-1]
    cap = poly
    if hole:
        hole = [tuple(map(float, p)) for p in hole]
        if _area(hole) > 0:
            hole = hole[::-1]
        # bridge: a visible pair of vertices
        best = None
        for i, a in enumerate(poly):
            for j, b in enumerate(hole):
                d = (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
                if best is None or d < best[0]:
                    best = (d, i, j)
        _, i, j = best
        cap = poly[:i + 1] + hole[j:] + hole[:j + 1] + poly[i:]
    tris = []
    for a, b, c in earclip(cap):
        pa, pb, pc = cap[a], cap[b], cap[c]
        tris.append(np.array([(*pa, z1), (*pb, z1), (*pc, z1)]))
        tris.append(np.array([(*pa, z0), (*pc, z0), (*pb, z0)]))
    for ring in [poly] + ([hole] if hole else []):
        for p, q in zip(ring, ring[1:] + ring[:1]):
            tris.append(np.array([(*p, z0), (*q, z0), (*q, z1)]))
            tris.append(np.array([(*p, z0), (*q, z1), (*p, z1)]))
    return tris


def ngon(cx, cy, r, n, ph=0.0):
    return [(cx + r * math.cos(ph + 2 * math.pi * k / n), cy + r * math.sin(ph + 2 * math.pi * k / n))
            for k in range(n)]


def convex(rng, c, r, n):
    from scipy.spatial import ConvexHull
    pts = []
    for _ in range(n):
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        v /= np.linalg.norm(v)
        pts.append(np.array(c) + v * r * rng.uniform(.6, 1))
    pts = np.array(pts)
    h = ConvexHull(pts)
    return orient_outward_convex([pts[s] for s in h.simplices], pts[h.vertices].mean(axis=0))


def rand_rot(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def star(rng, n, r0, r1):
    """A simple, usually concave polygon around the origin."""
    out = []
    for k in range(n):
        a = 2 * math.pi * (k + rng.uniform(-.25, .25)) / n
        r = rng.uniform(r0, r1)
        out.append((r * math.cos(a), r * math.sin(a)))
    return out


def transform(solid, R, t):
    return [tri @ R + np.array(t) for tri in solid]


def random_solid(rng, r=1.0, rotate=True):
    """A closed solid inside the ball of radius r around the origin."""
    k = rng.randrange(6)
    s = r / math.sqrt(3)
    if k == 0:
        e = [rng.uniform(.3, 1) * s for _ in range(3)]
        sol = box([-x for x in e], e)
    elif k == 1:
        sol = convex(rng, (0, 0, 0), r, rng.randint(4, 14))
    elif k == 2:
        h = rng.uniform(.2, .6) * r
        for _ in range(20):
            try:
                sol = prism(star(rng, rng.randint(5, 9), .3 * r, .75 * r), -h, h)
                break
            except ValueError:
                continue
        else:
            sol = box([-s] * 3, [s] * 3)
    elif k == 3:
        h = rng.uniform(.15, .5) * r
        R = rng.uniform(.5, .8) * r
        n, m = rng.randint(4, 9), rng.randint(3, 12)
        q = R * math.cos(math.pi / n) * rng.uniform(.3, .8)
        sol = prism(ngon(0, 0, R, n, rng.uniform(0, 1)), -h, h, ngon(0, 0, q, m, rng.uniform(0, 1)))
    elif k == 4:
        h = rng.uniform(.2, .6) * r
        sol = prism(ngon(0, 0, rng.uniform(.3, .75) * r, rng.randint(3, 20), rng.uniform(0, 1)), -h, h)
    else:
        w = r * .6
        t = w * rng.uniform(.2, .6)
        # an L
        sol = prism([(-w, -w), (w, -w), (w, -w + t), (-w + t, -w + t), (-w + t, w), (-w, w)],
                    -w * .5, w * .5)
    if rotate:
        sol = transform(sol, rand_rot(rng), (0, 0, 0))
    return sol


def random_scene(rng, bodies, r=1.0, spread=3.0, rotate=True):
    """Disjoint bodies (disjoint bounding balls), possibly behind one another."""
    cs = []
    tries = 0
    while len(cs) < bodies:
        tries += 1
        if tries > 1000:
            spread *= 1.3
            tries = 0
        rr = rng.uniform(.4, 1) * r
        c = np.array([rng.uniform(-spread, spread) for _ in range(3)])
        if all(np.linalg.norm(c - c2) > (rr + r2) * 1.05 for c2, r2 in cs):
            cs.append((c, rr))
    out = []
    for c, rr in cs:
        out += transform(random_solid(rng, rr, rotate), np.eye(3), c)
    return out


# ------------------------------------------------------------------ STL text
def stl_num(rng, x):
    x = float(x)
    if rng is not None and x == int(x) and abs(x) < 1e6 and rng.random() < .5:
        return str(int(x))
    s = repr(x)
    if "e" in s and "+" in s:
        s = f"{x:.6f}"
    return s


def stl(tris, rng=None, normals=None, name="s"):
    """Plain, OpenSCAD-like; with an rng, varied in every way that has no meaning."""
    pad = (lambda k: " " * rng.randint(0, 6)) if rng else (lambda k: " " * k)
    end = (lambda: " " * rng.choice([0, 0, 0, 1, 3])) if rng else (lambda: "")
    sp = (lambda: " " * rng.choice([1, 1, 1, 2, 5])) if rng else (lambda: " ")
    L = [pad(0) + "solid" + (" " + name if name else "")]
    for i, t in enumerate(tris):
        if normals is not None:
            n = normals[i]
        else:
            n = np.cross(t[1] - t[0], t[2] - t[0])
            n = n / np.linalg.norm(n)
        L.append(pad(2) + "facet normal" + "".join(sp() + stl_num(rng, c) for c in n) + end())
        L.append(pad(4) + "outer loop" + end())
        for v in t:
            L.append(pad(6) + "vertex" + "".join(sp() + stl_num(rng, c) for c in v) + end())
        L.append(pad(4) + "endloop" + end())
        L.append(pad(2) + "endfacet" + end())
    L.append(pad(0) + "endsolid" + (" " + name if name else ""))
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ script text
def lit(s):
    """A string literal for s (str without control characters but newline)."""
    out = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
    return '"' + out + '"'


def view_text(v):
    return lit(v) if isinstance(v, str) else "[%s, %s]" % (v[0], v[1])


def random_view(rng, named=.4, digits=2):
    if rng.random() < named:
        return rng.choice(NAMED)
    return (Num(rng.uniform(-180, 180), digits), Num(rng.uniform(-180, 180), digits))


def draw(model, at=None, scale=None, view=None, parts=()):
    s = [f"draw {model} {{"]
    if scale:
        s.append(f"scale = {scale[0]}:{scale[1]};")
    if at is not None:
        s.append(f"@{at};")
    if view is not None:
        s.append(f"view = {view_text(view)};")
    s += list(parts)
    s.append("}")
    return "\n  ".join(s)


def page(items, name=None):
    return "page {\n" + (f"  name = {lit(name)};\n" if name is not None else "") + "\n".join(items) + "\n}\n"
