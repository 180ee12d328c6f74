"""C06..C09, C21, C22: what annotations say and where they are drawn."""
import math, re
import numpy as np
import gen as G, ref as R
from common import *

TITLE = 1                 # every page shows its (here empty) title


def two_pages(env, models, body, parts, mname="m"):
    """The same draw without and with annotations -> (Extra, case) or None."""
    base = G.page([f"draw {mname} {{ {body} }}"])
    with_ = G.page([f"draw {mname} {{ {body}\n  " + "\n  ".join(parts) + "\n}"])
    case = mkcase(models, [base, with_], company=env.rng, bodies=[body, body])
    r = env.expect_ok(case, "a valid annotation")
    if not r:
        return None
    pg = r.pages()
    if len(pg) != 2:
        env.o.bad("pages", f"{len(pg)} pages for 2", case)
        return None
    ex = Extra(pg[1], pg[0])
    if ex.lost:
        env.o.bad("model-changed", f"annotating changed what the model itself draws: {ex.lost_lines[:2]} "
                  f"{ex.lost_texts[:2]} {ex.lost_arcs[:2]}", case)
        return None
    return ex, case


class Setup:
    """A model drawn somewhere, in some view at some scale."""

    def __init__(self, rng, tris=None, view=0, named=.5, at=True):
        self.tris = tris if tris is not None else some_model(rng)
        if view == 0:
            view = G.random_view(rng, named=named) if rng.random() < .85 else None
        self.view = view
        self.size = size_of(self.tris)
        self.proj = R.Projection(self.tris, self.view)
        self.M = self.proj.M
        self.sc = some_scale(rng, self.size) if rng.random() < .9 else None
        self.at = G.Vec([rng.uniform(-5, 5), rng.uniform(-4, 4)], 2) if at and rng.random() < .8 else None
        self.pl = R.Placement(self.proj, self.sc or (1, 1), None if self.at is None else self.at.v)
        b = []
        if self.sc:
            b.append(f"scale = {self.sc[0]}:{self.sc[1]};")
        if self.at is not None:
            b.append(f"@{self.at};")
        if self.view is not None:
            b.append(f"view = {G.view_text(self.view)};")
        rng.shuffle(b)
        self.body = " ".join(b)
        self.ctr = self.proj.center()

    def pt(self, rng, spread=1.5, digits=5):
        """(literal, view coordinates) of some point about the model."""
        xy = self.ctr + np.array([rng.uniform(-spread, spread), rng.uniform(-spread, spread)]) * self.size
        v = inplane(self.M, xy, rng.uniform(-1, 1) * self.size, digits)
        return v, v.v @ self.M

    def dir(self, rng, digits=6, wide=True):
        if rng.random() < .35:
            d = np.array(rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1)]), float)
        else:
            a = rng.uniform(0, 2 * math.pi)
            d = np.array([math.cos(a), math.sin(a)])
        d = d * rng.choice([1, 1, 1, .1, 5, 37])
        if wide and rng.random() < .15:
            k = rng.uniform(-9, 9)
            d, digits = d * 10 ** k, max(0, digits - int(k))
        v = inplane(self.M, d, 0, digits)
        w = v.v @ self.M
        return v, w


# ------------------------------------------------------------------ C06
def c06(env):
    rng = env.rng
    tris = some_model(rng)
    sz = size_of(tris)
    P = lambda k=2.0: G.Vec([rng.uniform(-k, k) * sz for _ in range(3)], rng.choice([0, 1, 3, 5]))
    for _ in range(50):
        f, t = P(), P()
        if rng.random() < .5:
            d = G.Vec([rng.choice([-1, 0, 1]) for _ in range(3)])
        else:
            d = G.Vec([rng.gauss(0, 1) * rng.choice([1, 1, .05, 30]) for _ in range(3)], 5)
        if np.linalg.norm(d.v) > 1e-3:
            if rng.random() < .2:
                k = rng.uniform(-12, 12)
                d = G.Vec(d.v * 10 ** k, max(0, 6 - int(k)))
            break
    else:
        return
    v = abs(float(np.dot(unit(d.v), t.v - f.v)))
    fm = random_fmt(rng)
    # double precision from the literals on
    want = fmt_values(fm or "%.3f", v, rel=1e-12, absol=1e-12 * sz)
    pages, n = [], rng.randint(2, 4)
    expect = []
    vs = []
    for k in range(n):
        s = Setup(rng, tris)
        vs.append(s)
        parts, exp = [], []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a = G.Vec([rng.uniform(-2, 2) * sz for _ in range(3)], 3)
            ff, tt = (f, t) if rng.random() < .7 else (t, f)
            props = [f"at = {a}", f"from = {ff}", f"to = {tt}", f"dir = {d}"]
            if fm is not None:
                props.append(f"fmt = {G.lit(fm)}")
            rng.shuffle(props)
            parts.append("dim(" + ", ".join(props) + ");")
            exp.append(1)
        expect.append(len(exp))
        pages.append(G.page([f"draw m {{ {s.body} " + " ".join(parts) + "}"]))
    case = mkcase({"m": tris}, pages, company=rng, bodies=[v.body for v in vs])
    r = env.expect_ok(case, "a valid dimension")
    if not r:
        return
    for k, (pg, e) in enumerate(zip(r.pages(), expect)):
        labels = [t.s for t in pg.texts if t.s]
        if len(labels) != e:
            env.o.bad("labels", f"page {k + 1}: {len(labels)} labels {labels[:4]} for {e} dimension(s)", case)
            return
        for s in labels:
            env.o.inc("labels checked")
            if s not in want and not in_range(s, want):
                env.o.bad("value", f"label {s!r}, but the points are {v!r} apart along the direction "
                          f"(expected one of {sorted(want)}); page {k + 1}", case)
                return
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))
    # by vertex instead of by coordinate, in the plane of the view
    s = Setup(rng, tris)
    lo, hi = s.proj.limits()
    vt = s.proj.t.reshape(-1, 3) if len(s.proj.t) else np.zeros((0, 3))
    vt = vt[np.unique(vt.round(9), axis=0, return_index=True)[1]]
    if len(vt) < 2:
        return
    p, q = (vt[rng.randrange(len(vt))] for _ in range(2))
    dl, dv = s.dir(rng)
    lits = []
    for w in (p, q):
        off = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), 0])
        gaps = np.sort(np.hypot(*(vt[:, :2] - w[:2]).T))
        gaps = gaps[gaps > 1e-7 * sz]
        g = gaps[0] if len(gaps) else sz
        if g < 1e-3 * sz:
            return
        l = inplane(s.M, (w + off * g * .2)[:2], w[2], 6)
        if np.hypot(*((l.v @ s.M)[:2] - w[:2])) > .4 * g:
            return
        lits.append(l)
    v = abs(float(np.dot(unit(dv[:2]), (q - p)[:2])))
    tilt = (dv[2] / np.linalg.norm(dv)) ** 2               # by how little the literal misses the plane
    case = mkcase({"m": tris}, [G.page([f"draw m {{ {s.body} dim(at = near({lits[0]}), from = near({lits[0]}), "
                                        f"to = near({lits[1]}), dir = {dl}{fmt_part(fm)}); }}"])], company=rng, bodies=[s.body])
    r = env.expect_ok(case, "a valid dimension")
    if not r:
        return
    labels = [t.s for t in r.pages()[0].texts if t.s]
    want = fmt_values(fm or "%.3f", v, rel=1e-12 + tilt, absol=1e-12 * sz)
    env.o.inc("labels between vertices checked")
    if len(labels) != 1 or (labels[0] not in want and not in_range(labels[0], want)):
        env.o.bad("value-near", f"labels {labels} between vertices {v!r} apart along the direction, expected one of "
                  f"{sorted(want)}", case)


# ------------------------------------------------------------------ C07
def turned(rng, d):
    a = rng.choice([0, math.pi]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-3.5, -1.5)
    d = unit(d)
    return np.array([d[0] * math.cos(a) - d[1] * math.sin(a), d[0] * math.sin(a) + d[1] * math.cos(a)])


def angle_parts(rng, s, out_of_plane=False, flat=False):
    """(properties, apex, from dir, to dir, from start, to start, at) in view coordinates."""
    ap, apv = s.pt(rng, 1)
    for _ in range(100):
        res, P = [], []
        for w in ("from", "to"):
            if rng.random() < .5:
                if out_of_plane:
                    l = G.Vec([rng.gauss(0, 1) * rng.choice([1, 10]) for _ in range(3)], 5)
                    d = l.v @ s.M
                else:
                    l, d = s.dir(rng)
                    if flat and res:
                        # nearly the same way as the other, or the opposite
                        l = inplane(s.M, turned(rng, res[0][0][:2]), 0, 7)
                        d = l.v @ s.M
                P.append(f"{w}_dir = {l}")
                res.append((d, apv))
            else:
                if out_of_plane:
                    l, q = s.pt(rng, 2)
                else:
                    q0 = s.ctr + np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) * s.size
                    if flat and res:
                        q0 = apv[:2] + turned(rng, res[0][0][:2]) * s.size * rng.uniform(.3, 3)
                    l = inplane(s.M, q0, apv[2], 6)
                    q = l.v @ s.M
                d = q - apv
                P.append(f"{w}_point = {l}")
                res.append((d, q))
        d0, d1 = res[0][0], res[1][0]
        n0, n1 = np.linalg.norm(d0), np.linalg.norm(d1)
        if any(n < 1e-3 or n < .02 * s.size and n < .05 for n, p in ((n0, P[0]), (n1, P[1])) if "_point" in p) or min(n0, n1) < 1e-14:
            continue
        cz = (d0[0] * d1[1] - d0[1] * d1[0]) / (n0 * n1)
        lim = 2e-4 if flat else .02
        if abs(cz) < lim:
            continue
        at0 = apv[:2] + np.array([rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)]) * s.size
        a = inplane(s.M, at0, apv[2] if rng.random() < .5 else rng.uniform(-2, 2) * s.size, 6)
        return [f"at = {a}", f"apex = {ap}", *P], apv, res, a.v @ s.M, cz
    return None


def angle_deg(d0, d1):
    return math.degrees(math.atan2(np.linalg.norm(np.cross(d0, d1)), float(np.dot(d0, d1))))


def c07(env):
    rng = env.rng
    s = Setup(rng)
    oop = rng.random() < .3
    got = angle_parts(rng, s, oop, not oop and rng.random() < .2)
    if not got:
        return
    props, ap, res, at, cz = got
    fm = random_fmt(rng)
    if fm is not None:
        props.append(f"fmt = {G.lit(fm)}")
    # swapping the two sides must not matter
    props2 = [p.replace("from_", "@@").replace("to_", "from_").replace("@@", "to_") for p in props]
    rng.shuffle(props)
    e = two_pages(env, {"m": s.tris}, s.body, ["angle(" + ", ".join(props) + ");"])
    if not e:
        return
    ex, case = e
    want_v = angle_deg(res[0][0], res[1][0])
    want = {x + b" deg" for x in fmt_values(fm or "%.1f", want_v, rel=0, absol=1e-9)}
    env.o.inc("labels checked")
    if len(ex.texts) != 1 or (ex.texts[0].s not in want and not in_range(ex.texts[0].s, want)):
        env.o.bad("value", f"label {[t.s for t in ex.texts]} for an angle of {want_v!r} degrees", case)
        return
    if not oop:
        # the arc sweeps the angle the label gives, from one side to the other
        a0, a1 = (math.degrees(math.atan2(d[1], d[0])) for d, _ in res)
        if cz < 0:
            a0, a1 = a1, a0
        c, rad = s.pl(ap), np.hypot(*(at - ap)[:2]) * s.pl.s
        sweep = (a1 - a0) % 360
        if len(ex.arcs) != 1 or not arc_close(ex.arcs[0], (c[0], c[1], rad, a0, a0 + sweep), 0.01 + 2e-5 * max(abs(c[0]), abs(c[1]), rad)):
            env.o.bad("arc", f"arc {ex.arcs} where centre {c.round(3).tolist()} radius {rad:.4f} from {a0:.3f} sweeping "
                      f"{sweep:.3f} degrees was expected", case)
            return
        env.o.inc("arcs checked")
    e2 = two_pages(env, {"m": s.tris}, s.body, ["angle(" + ", ".join(props2) + ");"])
    if not e2:
        return
    ex2, case2 = e2
    d = adiff(ex2.arcs, ex.arcs)
    if [t.s for t in ex2.texts] != [t.s for t in ex.texts] or d[0] or d[1]:
        env.o.bad("swap", f"exchanging the two sides changed {[t.s for t in ex.texts]} {ex.arcs} to "
                  f"{[t.s for t in ex2.texts]} {ex2.arcs}", case2)
        return
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


# ------------------------------------------------------------------ circles
class Circles:
    """A plate with a hole (or a disc) seen along the circle's axis, next to other things."""

    def __init__(self, rng, big=False, far=False):
        n = rng.choice([3, 4, 5, 6, 8, 12, 16, 24, 30, 40, 50, 64, 100] if not big else [30, 200, 500, 1200])
        self.kind = rng.choice(["hole", "disc", "ring"])
        mirrored = far and not big and rng.random() < .1
        if mirrored:
            # corners on either side of an axis are equally far from any point on it
            n, self.kind = rng.choice([3, 3, 4, 4, 5, 6, 8]), "disc"
        self.n = n
        self.r = rng.uniform(.2, 2)
        ph = rng.choice([0, math.pi / n, rng.uniform(0, 6) if not mirrored else math.pi / 2])
        c = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3)])
        if rng.random() < .3:
            c = c.round(1)
        if far and rng.random() < .1:
            # far from the origin
            c = c * 10 ** rng.uniform(1, 5)
        if mirrored:
            c = c * 0
        self.c = c
        z0, z1 = 0.0, rng.choice([.25, 1, rng.uniform(.1, 2)])
        ring = [(c[0] + x, c[1] + y) for x, y in G.ngon(0, 0, self.r, n, ph)]
        if mirrored:
            ring = [(round(x, 12), round(y, 12)) for x, y in ring]
        elif rng.random() < .4:
            ring = [(round(x, 4), round(y, 4)) for x, y in ring]
        self.ring = np.array(ring)
        if n >= 200:
            # too many for general triangulation: a band round the circle, or a zigzag across it
            at = lambda p, z: (*p, z)
            if self.kind == "disc":
                z = [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]
                caps, rings = [(ring[a], ring[b], ring[d]) for a, b, d in zip(z, z[1:], z[2:])], [ring]
            else:
                o = [(c[0] + (x - c[0]) * 1.7, c[1] + (y - c[1]) * 1.7) for x, y in ring]
                caps = [f for i in range(n) for j in [(i + 1) % n] for f in ((ring[i], o[i], o[j]), (ring[i], o[j], ring[j]))]
                rings = [o, ring[::-1]]
            # (outsides are seen from the order of the corners)
            caps = [f if G._area(f) > 0 else f[::-1] for f in caps]
            t = [np.array([at(p, z1) for p in f]) for f in caps] + [np.array([at(p, z0) for p in f[::-1]]) for f in caps]
            for g in rings:
                for p, q in zip(g, g[1:] + g[:1]):
                    t += [np.array([at(p, z0), at(q, z0), at(q, z1)]), np.array([at(p, z0), at(q, z1), at(p, z1)])]
        elif self.kind == "hole":
            w = self.r * rng.uniform(1.6, 4)
            plate = [(c[0] - w, c[1] - w), (c[0] + w, c[1] - w * rng.uniform(1, 1.2)), (c[0] + w, c[1] + w), (c[0] - w, c[1] + w)]
            t = G.prism(plate, z0, z1, ring)
        elif self.kind == "disc":
            t = G.prism(ring, z0, z1)
        else:
            m = rng.choice([4, 8, n, 20])
            t = G.prism(G.ngon(c[0], c[1], self.r * rng.uniform(1.5, 3) / math.cos(math.pi / m), m, .1), z0, z1, ring)
        if rng.random() < .5 and not mirrored:
            # something else on the sheet
            far = c + np.array([1, .3]) * self.r * 12
            t += G.transform(G.random_solid(rng, self.r), np.eye(3), (*far, 0))
        if big and n < 300:
            # a great many other corners, to one side
            a = rng.uniform(0, 7)
            p = np.array([*(c + np.array([math.cos(a), math.sin(a)]) * self.r * 12), 0])
            m = rng.choice([400, 1500])
            u = np.array([math.cos(a + 1), math.sin(a + 1), 0]) * self.r * 5 / m
            t += [np.array([[0, 0, 0], [.8, 0, 0], [0, .8, 0]]) * self.r * 5 / m + p + u * i for i in range(m)]
        self.k = rng.choice([1, 1, 1, .1, 10, 100, .001])
        t = [x * self.k for x in t]
        self.c, self.r, self.ring = self.c * self.k, self.r * self.k, self.ring * self.k
        # the axis is the model's z here: turn the model so that some view looks along it
        # (the view's matrix takes the turned model back)
        self.view = rng.choice(["Z+", None, "X+", "X-", "Y+", "Y-", "Z-"] +
                               [(G.Num(a), G.Num(z)) for a, z in ((0, 90), (90, 90), (180, 90), (0, 0), (-90, 90), (45, 90), (30, 45))])
        M = R.view_matrix(self.view)
        tris = [x @ M.T for x in t]
        if isinstance(self.view, str) or self.view is None:
            pass
        self.tris = tris
        self.M = M

    def setup(self, rng):
        return Setup(rng, self.tris, self.view)

    def target(self, rng, s, digits=5, far=False):
        """A literal whose three nearest vertices are on the circle, or None."""
        V = s.proj.t.reshape(-1, 3)[:, :2]
        for _ in range(20):
            k = rng.choice([0, 0, .05, .3, .6, 1.0])
            if far and rng.random() < (.3 if self.c.any() else .9):
                # from a way off, of which corners next to each other look equally far
                k = 10 ** rng.uniform(.3, 4)
            a = rng.choice([rng.uniform(0, 7) if self.c.any() else 0, rng.randrange(8) * math.pi / 4])
            off = np.array([math.cos(a), math.sin(a)]) * self.r * k
            if k == 1.0:
                off = self.ring[rng.randrange(self.n)] - self.c
            l = inplane(s.M, self.c + off, rng.uniform(-1, 1) * self.r, digits + (3 if self.k < .01 else 0))
            w = (l.v @ s.M)[:2]
            d = np.hypot(*(V - w).T)
            on = np.abs(np.hypot(*(V - self.c).T) - self.r) < 1e-6 * self.r
            if len(np.unique((V[on] / self.k).round(6), axis=0)) < 3:
                return None
            ring = np.sort(np.hypot(*(self.ring - w).T))
            if (~on).any() and d[~on].min() < ring[2] * 1.02:
                continue
            # nothing else within the band taken to be the circle
            dc = np.hypot(*(V[~on] - self.c).T) if (~on).any() else np.array([9e9])
            if ((dc > .85 * self.r) & (dc < 1.15 * self.r)).any():
                continue
            return l
        return None


def c08(env):
    rng = env.rng
    C = Circles(rng, env.index % 50 == 7, far=True)
    s = C.setup(rng)
    tgt = C.target(rng, s, far=True)
    if tgt is None:
        env.o.inc("no usable target")
        return
    fm = random_fmt(rng)
    parts, want = [], []
    for k in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["dia", "rad"])
        al, _ = s.pt(rng)
        while True:
            dl, dv = s.dir(rng)
            if np.hypot(dv[0], dv[1]) > 1e-12:
                break
        props = [f"at = {al}", f"center = {tgt}", f"dir = {dl}"]
        if fm is not None:
            props.append(f"fmt = {G.lit(fm)}")
        rng.shuffle(props)
        parts.append(f"{kind}(" + ", ".join(props) + ");")
        rel = 1e-4 if C.ring is not None else 3e-6
        v = 2 * C.r if kind == "dia" else C.r
        pre = b"\xe9" if kind == "dia" else b"R"
        want.append({pre + x for x in fmt_values(fm or "%.3f", v, rel=rel if np.ptp(np.hypot(*(C.ring - C.c).T)) > 1e-9 * C.r else 1e-9)})
    e = two_pages(env, {"m": C.tris}, s.body, parts)
    if not e:
        return
    ex, case = e
    if len(ex.texts) != len(parts):
        env.o.bad("labels", f"{len(ex.texts)} labels for {len(parts)} annotations", case)
        return
    for t, w, p in zip(ex.texts, want, parts):
        env.o.inc("labels checked")
        lo, hi = sorted(w)[0], sorted(w)[-1]
        if t.s not in w and not in_range(t.s, w):
            env.o.bad("value", f"label {t.s!r} for {p[:3]} of a circle of radius {C.r!r} ({C.n} corners), expected about {sorted(w)}", case)
            return
    env.o.note(case.digest())
    env.o.inc(f"circles with {C.n} corners")
    env.o.sample(case.script.decode("latin-1"))


def in_range(s, w):
    """A label strictly between two allowed ones (fine formats have many)."""
    import re
    num = re.compile(rb"[-+]?[0-9]*\.?[0-9]+")
    try:
        v = float(num.findall(s)[0])
        ws = [float(num.findall(x)[0]) for x in w]
    except IndexError:
        return False
    strip = lambda x: num.sub(b"#", x, 1).replace(b" ", b"")
    return strip(s) == strip(next(iter(w))) and min(ws) <= v <= max(ws)


# ------------------------------------------------------------------ C09
def locate(env, s, expr, fromto):
    """Where a point expression lands on the page, seen through a dimension's label."""
    return f"dim(at = {expr}, from = {fromto[0]}, to = {fromto[1]}, dir = {fromto[2]});"


def c09_slots(env):
    """Annotations with near() and center() wherever a point goes, next to the same with the points these stand for."""
    rng = env.rng
    C = Circles(rng)
    s = C.setup(rng)
    V = s.proj.t.reshape(-1, 3)[:, :2]
    if not len(V):
        return
    size, sc = s.size, s.pl.s
    dig = max(5, 9 - int(math.floor(math.log10(size))))
    spell = lambda xy, z=0.0: str(inplane(s.M, xy, z, dig))
    exact = np.ptp(np.hypot(*(C.ring - C.c).T)) < 1e-9 * C.r
    tgt = C.target(rng, s) if exact else None
    dc = np.hypot(*(V - C.c).T)
    ringed = tgt is not None and not (dc < .9 * C.r).any()

    def near():
        for _ in range(20):
            v = V[rng.randrange(len(V))]
            q = v + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * rng.choice([.02, .3, 1.5]) * size
            d = np.hypot(*(V - q).T)
            i = int(np.argmin(d))
            other = np.hypot(*(V - V[i]).T) > 1e-6 * size
            if other.any() and d[other].min() < d[i] + 1e-3 * size:
                continue
            n = rng.choice([1, 1, 1, 2])
            return "near(" * n + spell(q, rng.uniform(-2, 2) * size) + ")" * n, V[i]
        return None

    used = set()

    def slot():
        k = rng.random()
        if k < .25 and tgt is not None:
            used.add("center")
            return f"center({tgt})", C.c
        if k < .75:
            g = near()
            if g:
                used.add("near")
                return g
        xy = s.ctr + np.array([rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)]) * size
        l = inplane(s.M, xy, 0, dig)
        return str(l), (l.v @ s.M)[:2]

    pairs = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["dim", "dim", "angle", "angle", "dia", "rad"] if ringed else ["dim", "angle"])
        for _ in range(40):
            used.clear()
            at = slot()
            fm = random_fmt(rng)
            dl, dv = s.dir(rng, wide=False)
            dv = unit(dv[:2])
            if kind == "dim":
                a, b = slot(), slot()
                lab = (fm or "%.3f") % abs((b[1] - a[1]) @ dv)
                if min(abs((p[1] - at[1]) @ np.array([-dv[1], dv[0]])) for p in (a, b)) < .01 * size \
                        or abs((b[1] - a[1]) @ dv) < .02 * size or dim_strokes(a[1], b[1], at[1], dv, lab, sc) is None:
                    continue
                pts, lits = [("at", at), ("from", a), ("to", b)], [("dir", str(dl))]
            elif kind == "angle":
                ap, a, b = slot(), slot(), slot()
                u, w = a[1] - ap[1], b[1] - ap[1]
                if min(np.hypot(*u), np.hypot(*w), np.hypot(*(at[1] - ap[1]))) < .2 * size \
                        or abs(u[0] * w[1] - u[1] * w[0]) < .1 * np.hypot(*u) * np.hypot(*w):
                    continue
                pts, lits = [("at", at), ("apex", ap), ("from_point", a), ("to_point", b)], []
            else:
                used.add("center")
                c = f"center({tgt})", C.c
                if min(abs(dv)) < .05 or np.hypot(*(at[1] - c[1])) < .05 * C.r:
                    continue
                q = min((at[1] - C.c) / dv)
                if abs(q - max(1, C.r)) < 1e-3 * C.r:
                    continue
                pts, lits = [("at", at), ("center", c)], [("dir", str(dl))]
            if not used:
                continue
            f = [] if fm is None else [("fmt", G.lit(fm))]
            one = [f"{n} = {v}" for n, v in [(n, p[0]) for n, p in pts] + lits + f]
            two = [f"{n} = {v}" for n, v in [(n, spell(p[1])) for n, p in pts] + lits + f]
            rng.shuffle(one)
            pairs.append((f"{kind}({', '.join(one)});", f"{kind}({', '.join(two)});", kind))
            break
    if not pairs:
        env.o.inc("no usable target")
        return
    pages = [G.page([f"draw m {{ {s.body} " + " ".join(p[i] for p in pairs) + "}"]) for i in (0, 1)]
    case = mkcase({"m": C.tris}, pages, company=rng, bodies=[s.body])
    r = env.expect_ok(case, "annotations with near() and center()")
    if not r:
        return
    a, b = r.pages()
    slack = 5e-4 * sc * C.r
    left = list(b.lines)
    for g in a.lines:
        for i, h in enumerate(left):
            if R.seg_close(g, h, R.tol_at(g[:2], g[2:]) + slack):
                left.pop(i)
                break
        else:
            env.o.bad("slots", f"{[p[0] for p in pairs]} draws {np.round(g, 3).tolist()}, which {[p[1] for p in pairs]} does not", case)
            return
    if left or len(a.arcs) != len(b.arcs) or len(a.texts) != len(b.texts):
        env.o.bad("slots", f"{[p[0] for p in pairs]} draws less than {[p[1] for p in pairs]}: {np.round(left[:3], 3).tolist()}", case)
        return
    for g, h in zip(a.arcs, b.arcs):
        if max(abs(x - y) for x, y in zip(g[:3], h[:3])) > R.tol_at(g[:3]) + 2 * slack or \
                max(abs((x - y + 180) % 360 - 180) for x, y in zip(g[3:], h[3:])) > .05:
            env.o.bad("slots", f"{[p[0] for p in pairs]}: arc {np.round(g, 4).tolist()}, but {np.round(h, 4).tolist()} for {[p[1] for p in pairs]}", case)
            return
    num = re.compile(rb"\d+(\.\d*)?")
    for g, h in zip(a.texts, b.texts):
        if not close2(g.at, h.at, R.tol_at(g.at) + slack + 5) or num.sub(b"#", g.s).replace(b" ", b"") != num.sub(b"#", h.s).replace(b" ", b"") \
                or any(abs(float(x[0]) - float(y[0])) > 2e-4 * abs(float(x[0])) + 3 * 10.0 ** -len(x[1][1:]) + 2e-4 * C.r
                       for x, y in zip(num_of(num, g.s), num_of(num, h.s))):
            env.o.bad("slots", f"{[p[0] for p in pairs]}: label {g.s!r} at {g.at}, but {h.s!r} at {h.at} for {[p[1] for p in pairs]}", case)
            return
    for p in pairs:
        env.o.inc("in every place: " + p[2])
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


def num_of(num, t):
    return [(m[0], m[1] or b"") for m in num.finditer(t)]


def c09(env):
    rng = env.rng
    if env.index % 5 == 4:
        return c09_slots(env)
    mode = env.index % 3
    if mode < 2:
        tris = some_model(rng) if rng.random() < .6 else G.random_scene(rng, rng.randint(2, 4))
        s = Setup(rng, tris)
        V = s.proj.t.reshape(-1, 3)
        if not len(V):
            return
        parts, want = [], []
        for _ in range(rng.randint(1, 4)):
            # a point anywhere, or close to some vertex
            l = None
            for _ in range(30):
                k = rng.random()
                if k < .3:
                    c, _ = s.pt(rng, 1.2)
                elif k < .45:
                    # far from everything
                    a, D = rng.uniform(0, 7), s.size * 10 ** rng.uniform(.3, 5)
                    c = inplane(s.M, s.ctr + np.array([math.cos(a), math.sin(a)]) * D, rng.uniform(-1, 1) * s.size, 3)
                else:
                    v = V[rng.randrange(len(V))]
                    k = rng.choice([0, 0, .02, .3])
                    c = inplane(s.M, v[:2] + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * k * s.size,
                                rng.choice([v[2], v[2], rng.uniform(-3, 3) * s.size]), 6)
                w = (c.v @ s.M)[:2]
                d = np.hypot(*(V[:, :2] - w).T)
                i = int(np.argmin(d))
                other = np.hypot(*(V[:, :2] - V[i, :2]).T) > 1e-6 * s.size
                if other.any() and d[other].min() < d[i] + 1e-4 * s.size:
                    continue
                l = c
                break
            if l is None:
                continue
            f, t = s.pt(rng)[0], s.pt(rng)[0]
            dl, _ = s.dir(rng)
            nest = rng.choice([1, 1, 1, 2, 3])
            parts.append(f"dim(at = {'near(' * nest}{l}{')' * nest}, from = {f}, to = {t}, dir = {dl});")
            want.append((s.pl(V[i]), "near"))
    else:
        C = Circles(rng)
        tris = C.tris
        s = C.setup(rng)
        tgt = C.target(rng, s)
        if tgt is None:
            env.o.inc("no usable target")
            return
        f, t = s.pt(rng)[0], s.pt(rng)[0]
        dl, _ = s.dir(rng)
        expr = f"center({tgt})"
        V = s.proj.t.reshape(-1, 3)
        parts = [f"dim(at = {expr}, from = {f}, to = {t}, dir = {dl});"]
        want = [(s.pl(C.c), "center")]
    if not parts:
        return
    e = two_pages(env, {"m": tris}, s.body, parts)
    if not e:
        return
    ex, case = e
    if len(ex.texts) != len(parts):
        env.o.bad("labels", f"{len(ex.texts)} labels for {len(parts)} dimensions", case)
        return
    for t, (w, kind), p in zip(ex.texts, want, parts):
        env.o.inc(kind + " checked")
        c = centre(t)
        if not close2(c, w, R.tol_at(c, w) + (2e-4 * s.pl.s * C.r if kind == "center" and C.r < 1e9 else 0)):
            env.o.bad(kind, f"{kind}: {p[:90]} lands at page {c.round(3).tolist()}, expected {np.round(w, 3).tolist()}", case)
            return
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


# ------------------------------------------------------------------ C21
def dim_strokes(fr, to, at, d, label, sc):
    """Strokes (view plane, points per unit sc) of a dimension; None if on a decision boundary."""
    d = unit(d[:2])
    fr, to, at = fr[:2], to[:2], at[:2]
    af, an = at + d * (d @ (fr - at)), at + d * (d @ (to - at))
    L = an - af
    n = np.hypot(*L)
    if n * sc < .5:
        return None
    a = L / n / sc
    b = np.array([-a[1], a[0]])
    sf, st = (fr - at) @ b, (to - at) @ b
    if min(abs(sf), abs(st)) * sc < 1e-2 / sc:
        return None
    sf, st = math.copysign(1, sf), math.copysign(1, st)
    w, h = 8 * .3 * len(label.encode("utf-8", "surrogateescape")) + 1, 8 * .333 + 1
    ux, uy = abs(a * sc)
    gap = min(w / ux if ux > 1e-12 else math.inf, h / uy if uy > 1e-12 else math.inf)
    if abs(gap * 2 - n * sc) < 1e-2:
        return None
    out = []
    inside = gap * 2 < n * sc
    if inside:
        out += [(af, at - a * gap), (at + a * gap, an)]
    else:
        out += [(af, af - a * 10), (an, an + a * 10)]
        a = -a
    out += [(af - b * 4 * sf, fr - b * 2 * sf), (an - b * 4 * st, to - b * 2 * st)]
    out += [(af, af + a * 6 + b * 2), (af, af + a * 6 - b * 2), (an, an - a * 6 + b * 2), (an, an - a * 6 - b * 2)]
    return out, inside


def check_strokes(env, ex, s, want, case, what, tol=None):
    want = [seg(s.pl(p), s.pl(q)) for p, q in want]
    big = max(abs(c) for w in want for c in w)
    left, missing = list(ex.lines), []
    for w in want:
        for i, g in enumerate(left):
            if R.seg_close(g, w, tol or (4e-3 + 4e-5 * big)):
                left.pop(i)
                break
        else:
            missing.append(w)
    if left or missing:
        r = lambda x: [tuple(round(c, 3) for c in y) for y in x[:4]]
        env.o.bad("strokes", f"{what}: missing {r(missing)} unexpected {r(left)}", case)
        return False
    return True


def c21(env):
    rng = env.rng
    s = Setup(rng)
    parts, want, ats = [], [], []
    for _ in range(rng.choice([1, 1, 2])):
        dl, dv = s.dir(rng)
        far = rng.choice([1.5, 1.5, .2, .05])
        f, fv = s.pt(rng, far)
        t, tv = s.pt(rng, far)
        if rng.random() < .6:
            # between the points, off to a side: the usual place
            m = (fv + tv) / 2
            u = unit(dv[:2])
            m = m[:2] + np.array([-u[1], u[0]]) * rng.uniform(-2, 2) * s.size
            a = inplane(s.M, m, rng.uniform(-1, 1) * s.size, 5)
            av = a.v @ s.M
        else:
            a, av = s.pt(rng)
        fm = random_fmt(rng)
        v = abs(float(unit(dv[:2]) @ (tv - fv)[:2]))
        label = (fm or "%.3f") % v
        if len({len(x) for x in fmt_values(fm or "%.3f", v)}) > 1:
            continue
        w = dim_strokes(fv, tv, av, dv, label, s.pl.s)
        if w is None:
            continue
        props = [f"at = {a}", f"from = {f}", f"to = {t}", f"dir = {dl}"]
        if fm is not None:
            props.append(f"fmt = {G.lit(fm)}")
        rng.shuffle(props)
        parts.append("dim(" + ", ".join(props) + ");")
        want += w[0]
        ats.append(s.pl(av))
        env.o.inc("arrows inside" if w[1] else "arrows outside")
    if not parts:
        return
    e = two_pages(env, {"m": s.tris}, s.body, parts)
    if not e:
        return
    ex, case = e
    if len(ex.texts) != len(ats) or ex.arcs:
        env.o.bad("marks", f"{len(ex.texts)} labels and {len(ex.arcs)} arcs for {len(ats)} dimension(s)", case)
        return
    for t, a in zip(ex.texts, ats):
        if not close2(centre(t), a):
            env.o.bad("label", f"label centred at {centre(t).round(3).tolist()}, not at {np.round(a, 3).tolist()}", case)
            return
    if check_strokes(env, ex, s, want, case, "dimension"):
        env.o.inc("strokes checked", len(want))
        env.o.note(case.digest())
        env.o.sample(case.script.decode("latin-1"))


# ------------------------------------------------------------------ C22
def c22(env):
    if env.index % 2:
        return c22_angle(env)
    rng = env.rng
    C = Circles(rng)
    s = C.setup(rng)
    tgt = C.target(rng, s)
    if tgt is None:
        env.o.inc("no usable target")
        return
    kind = rng.choice(["dia", "rad"])
    al, av = s.pt(rng, rng.choice([.2, 1, 2]))
    while True:
        dl, dv = s.dir(rng)
        if np.hypot(dv[0], dv[1]) > 1e-12:
            break
    fm = random_fmt(rng)
    e = two_pages(env, {"m": C.tris}, s.body, [f"{kind}(at = {al}, dir = {dl}, center = {tgt}{fmt_part(fm)});"])
    if not e:
        return
    ex, case = e
    d = unit(dv[:2])
    c, r = C.c, C.r
    a, b = c + d * r, c - d * r
    S = s.pl.s
    x = np.array([-d[1], d[0]])
    tol = 4e-3 + 2e-4 * r * S + 4e-5 * max(abs(float(v)) for p in (a, b, av) for v in s.pl(p))
    heads = [(a, a + (-6 * d + k * x) / S) for k in (2, -2)]
    if kind == "dia":
        heads += [(b, b + (6 * d + k * x) / S) for k in (2, -2)]
    left = list(ex.lines)
    for p, q in heads:
        w = seg(s.pl(p), s.pl(q))
        for i, g in enumerate(left):
            if R.seg_close(g, w, tol):
                left.pop(i)
                break
        else:
            env.o.bad("head", f"{kind}: no arrow head stroke {np.round(w, 3).tolist()} among {np.round(ex.lines, 3).tolist()}", case)
            return
    # what is left is the leader: straight through the circle to (at least) the head, and on to the label
    start = s.pl(b if kind == "dia" else c)
    A, D, at2 = s.pl(a), d, s.pl(av)
    ok = False
    if len(left) == 2:
        for l1, l2 in ((0, 1), (1, 0)):
            for g1 in (left[l1], (*left[l1][2:], *left[l1][:2])):
                for g2 in (left[l2], (*left[l2][2:], *left[l2][:2])):
                    e1 = np.array(g1[2:])
                    rel = e1 - start
                    along, off = rel @ D, rel @ np.array([-D[1], D[0]])
                    if close2(g1[:2], start, tol) and close2(g2[:2], e1, tol) and close2(g2[2:], at2, tol) \
                            and abs(off) < 2 * tol + 1e-6 * abs(along) and along >= (A - start) @ D - tol:
                        ok = True
    if not ok:
        env.o.bad("leader", f"{kind}: strokes {np.round(left, 3).tolist()} don't lead from {start.round(3).tolist()} through the arrow "
                  f"head {A.round(3).tolist()} to the label at {at2.round(3).tolist()}", case)
        return
    t = ex.texts[0] if len(ex.texts) == 1 else None
    want = at2 + np.array([2.4 if kind == "dia" else 4.8, 0])
    if t is None or not close2(left_edge(t), want, tol):
        env.o.bad("label", f"{kind}: label starts at {None if t is None else left_edge(t).round(3).tolist()}, expected {want.round(3).tolist()}", case)
        return
    if ex.arcs:
        env.o.bad("arcs", f"{kind} drew arcs", case)
        return
    env.o.inc(kind + " drawings checked")
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


def left_edge(t):
    return np.array([t.at[0], t.at[1] + BASE_DY])


def c22_angle(env):
    rng = env.rng
    s = Setup(rng)
    got = angle_parts(rng, s)
    if not got:
        return
    props, ap, res, at, cz = got
    rng.shuffle(props)
    e = two_pages(env, {"m": s.tris}, s.body, ["angle(" + ", ".join(props) + ");"])
    if not e:
        return
    ex, case = e
    if cz < 0:
        res = res[::-1]
    (d0, p0), (d1, p1) = res
    d0, d1 = unit(d0[:2]), unit(d1[:2])
    ap2 = ap[:2]
    l = np.hypot(*(at[:2] - ap2))
    g = 2 / s.pl.s
    want = [(p0[:2] + d0 * g, ap2 + d0 * (l + 2 * g)), (p1[:2] + d1 * g, ap2 + d1 * (l + 2 * g))]
    for d, o in ((d0, d1), (d1, d0)):
        tip = ap2 + d * l
        inn = unit(o - d * (d @ o))
        want += [(tip, tip + (2 * d + 6 * inn) / s.pl.s), (tip, tip + (-2 * d + 6 * inn) / s.pl.s)]
    if not check_strokes(env, ex, s, want, case, "angle"):
        return
    if len(ex.texts) != 1 or not close2(centre(ex.texts[0]), s.pl(at)):
        env.o.bad("label", f"angle label centred at {[centre(t).round(3).tolist() for t in ex.texts]}, not at {s.pl(at).round(3).tolist()}", case)
        return
    env.o.inc("angle drawings checked")
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))
