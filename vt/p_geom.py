"""C10..C13: what of a model is drawn, and where on the page."""
import math
import numpy as np
import gen as G, ref as R
from core import Case
from common import *

TS = np.array([.5, .06, .18, .31, .43, .57, .66, .79, .9, .97])


def own_of(fs):
    return [fs[0], fs[1] if len(fs) > 1 else -1]


def check_hidden(env, tris, view, lines, pl, proj, case, margin, tag="hidden"):
    """Both directions of the hidden line property, on one drawing."""
    o = env.o
    edges = proj.edges()
    sure = [e for e in edges if e[3] is True]
    cand = [e for e in edges if e[3] is not False]
    vis = hid = 0
    if sure:
        p = np.array([e[0] for e in sure])
        q = np.array([e[1] for e in sure])
        L2 = np.hypot(*(q - p)[:, :2].T)
        pts = (p[:, None, :] + (q - p)[:, None, :] * TS[None, :, None]).reshape(-1, 3)
        own = np.repeat(np.array([own_of(e[2]) for e in sure]), len(TS), axis=0)
        st = proj.occlusion(pts, own, margin)
        st[np.repeat(L2 < 10 * margin, len(TS))] = 0
        vis, hid = int((st == -1).sum()), int((st == 1).sum())
        pv = pl(pts[st == -1])
        if len(pv):
            d = R.dist_to_segs(pv, lines)
            i = int(np.argmax(d))
            if d[i] > 0.02 + 2e-5 * np.abs(pv).max():
                o.bad(tag + "-missing", f"visible edge point {pts[st == -1][i].round(4).tolist()} (view coordinates), "
                      f"page {pv[i].round(2).tolist()}, has no ink within {d[i]:.3g}pt; view {view_str(view)}", case)
    o.inc("edge points that must be inked", vis)
    o.inc("edge points that must not be inked", hid)
    # a stroke of no length puts no ink on the page (butt caps)
    lines = [l for l in lines if math.hypot(l[2] - l[0], l[3] - l[1]) > 0.02]
    ink = R.points_on(lines, step=6.0)
    o.inc("ink points explained", len(ink))
    if len(ink):
        ok = np.zeros(len(ink), bool)
        near_any = np.zeros(len(ink), bool)
        tol = 0.02 + 2e-5 * np.abs(ink).max()
        for e in cand:
            a, b = pl(e[0]), pl(e[1])
            d = b - a
            L2 = float(d @ d)
            t = np.clip(((ink - a) @ d) / L2, 0, 1) if L2 > 1e-18 else np.zeros(len(ink))
            dist = np.hypot(*(ink - a - t[:, None] * d).T)
            k = np.nonzero((dist <= tol) & ~ok)[0]
            if not len(k):
                continue
            near_any[k] = True
            p3 = e[0] + (e[1] - e[0]) * t[k, None]
            st = proj.occlusion(p3, np.repeat([own_of(e[2])], len(k), axis=0), margin)
            ok[k[st != 1]] = True
        if not ok.all():
            i = int(np.nonzero(~ok)[0][0])
            why = "lies on a hidden part of an edge" if near_any[i] else "is on no silhouette, boundary or crease edge"
            o.bad(tag + ("-shown" if near_any[i] else "-extra"),
                  f"ink at page {ink[i].round(3).tolist()} {why}; view {view_str(view)}", case)
    return vis, hid


def view_str(v):
    return v if v is None or isinstance(v, str) else f"[{v[0]},{v[1]}]"


def fit_scale(rng, tris, view):
    p = R.Projection(tris, view)
    lo, hi = p.limits()
    ext = max(float((hi - lo).max()), 1e-6)
    for b in (1, 2, 3, 5, 8, 12, 20, 40, 100):
        if ext * 72 / b < 560:
            return p, (1, b)
    return p, (1, 1000)


def resized(rng, tris, sc):
    """The same thing in other units, drawn the same size."""
    j = rng.choice([-6, -5, -4, -3, 3, 5]) if rng.random() < .3 else 0
    return [t * 10.0 ** j for t in tris], (sc[0] * 10 ** max(0, -j), sc[1] * 10 ** max(0, j))


def stack(rng):
    """Flat things one above the other with hardly any room between them."""
    t, z = [], 0.0
    w = rng.uniform(1, 2)
    for _ in range(rng.randint(2, 4)):
        h = rng.choice([rng.uniform(.02, .1), rng.uniform(.1, .6)])
        n = rng.choice([4, 4, 3, 6, 9])
        t += G.transform(G.prism(G.ngon(0, 0, w, n, rng.random() * 6), z, z + h), np.eye(3), (rng.uniform(-.4, .4), rng.uniform(-.4, .4), 0))
        z += h + 10 ** rng.uniform(-4, -1)
        w *= rng.uniform(.5, 1.15)
    return t


def c10(env):
    rng = env.rng
    mode = env.index % 6
    if mode == 5:
        tris = G.transform(stack(rng), G.rand_rot(rng) if rng.random() < .6 else np.eye(3), (0, 0, 0))
        view = G.random_view(rng, named=.2)
    elif mode < 3:
        tris = G.random_scene(rng, rng.randint(2, 5), spread=rng.uniform(1.0, 2.4))
        view = G.random_view(rng, named=.3)
    elif mode == 3:
        # axis aligned, seen along an axis or not: the everyday case
        tris = G.random_scene(rng, rng.randint(1, 4), spread=rng.uniform(1, 2.4), rotate=False)
        view = G.random_view(rng, named=.6)
    else:
        # things deep inside a pocket or behind a plate with a window
        n = rng.randint(3, 12)
        tris = G.prism([(-2, -2), (2, -2), (2, 2), (-2, 2)], 0, .3, G.ngon(rng.uniform(-.3, .3), 0, rng.uniform(.6, 1.4), n, rng.random()))
        tris += G.transform(G.random_solid(rng, 1.0), np.eye(3), (rng.uniform(-1, 1), rng.uniform(-1, 1), rng.choice([-1.3, -1.3, 1.6])))
        Rm = G.rand_rot(rng)
        tris = G.transform(tris, Rm, (0, 0, 0))
        view = G.random_view(rng, named=.5)
    proj, sc = fit_scale(rng, tris, view)
    at = G.Vec([0, 0])
    small, sc2 = resized(rng, tris, sc)
    case = Case(f'load m = "m.stl";\n' + G.page([G.draw("m", at, sc2, view)]), {"m.stl": G.stl(small)})
    r = env.expect_ok(case)
    if not r:
        return
    dr = R.Drawing(r.pages()[0])
    pl = R.Placement(proj, sc, at.v)
    size = float(np.abs(np.array(tris)).max())
    vis, hid = check_hidden(env, tris, view, dr.lines, pl, proj, case, margin=2e-4 * size)
    env.o.inc("facets", len(tris))
    env.o.inc("strokes", len(dr.lines))
    if hid and vis:
        env.o.note(case.digest())
    env.o.sample({"script": case.script.decode("latin-1"), "facets": len(tris), "strokes": len(dr.lines),
                  "must-ink points": vis, "must-not-ink points": hid})


# ------------------------------------------------------------------ C11
def sheet(rng):
    """An open strip with folds of chosen sharpness, as a height field."""
    n = rng.randint(2, 9)
    ang, x, z = rng.uniform(-.4, .4), 0.0, 0.0
    prof = [(x, z)]
    limit = math.acos(.98)
    for _ in range(n):
        L = rng.uniform(.3, 1.2)
        x, z = x + L * math.cos(ang), z + L * math.sin(ang)
        prof.append((x, z))
        turn = rng.choice([limit * (1 - 10 ** rng.uniform(-5, -.5)), limit * (1 + 10 ** rng.uniform(-5, -.3)),
                           0, rng.uniform(0, 1.2)]) * rng.choice([-1, 1])
        if abs(ang + turn) < 1.3:
            ang += turn
        else:
            ang -= turn
        ang = max(-1.4, min(1.4, ang))
    w = rng.uniform(.4, 2)
    t = []
    for (x0, z0), (x1, z1) in zip(prof, prof[1:]):
        a, b, c, d = (np.array(p) for p in ((x0, 0, z0), (x1, 0, z1), (x1, w, z1), (x0, w, z0)))
        t += [np.array([a, b, c]), np.array([a, c, d])] if rng.random() < .5 else [np.array([a, b, d]), np.array([b, c, d])]
    return t


def layers(rng):
    """Surfaces one above the other over the same grid, pinched together at some
    corners: seen from above, edges of different surfaces coincide all over."""
    n, m = rng.randint(1, 3), rng.randint(1, 3)
    xs, ys = sorted(rng.sample(range(-4, 5), n + 1)), sorted(rng.sample(range(-4, 5), m + 1))
    flat = rng.random() < .3
    base = {(i, j): 0.0 if flat else rng.choice([0, 0, 1, rng.uniform(-.6, .6)]) for i in range(n + 1) for j in range(m + 1)}
    thick = {k: rng.choice([1, 1, 2, rng.uniform(.2, 2)]) for k in base}
    apart = [k for k in base if rng.random() < .35]
    for a in apart[:]:
        # two neighbours pinched would share an edge
        if any(b != a and max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= 1 for b in apart):
            apart.remove(a)
    diag = {(i, j): rng.random() < .5 for i in range(n) for j in range(m)}
    t = []
    for k in range(rng.randint(2, 3)):
        P = lambda i, j: np.array([xs[i], ys[j], base[i, j] + (0 if (i, j) in apart else k * thick[i, j])], float)
        for i in range(n):
            for j in range(m):
                if k and rng.random() < .15:
                    continue
                a, b, c, d = P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)
                t += [np.array(x) for x in ([[a, b, c], [a, c, d]] if diag[i, j] else [[a, b, d], [b, c, d]])]
    rng.shuffle(t)
    return [np.roll(x, rng.randrange(3), axis=0) for x in t]


def ball(rng):
    n, m = rng.choice([8, 12, 24, 36, 48]), rng.choice([4, 6, 12, 20])
    r = rng.uniform(.5, 2)
    P = lambda i, j: np.array([r * math.sin(math.pi * j / m) * math.cos(2 * math.pi * (i % n) / n),
                               r * math.sin(math.pi * j / m) * math.sin(2 * math.pi * (i % n) / n),
                               r * math.cos(math.pi * j / m) * 1.3])
    top, bot = np.array([0, 0, 1.3 * r]), np.array([0, 0, -1.3 * r])
    t = []
    for i in range(n):
        t.append(np.array([top, P(i, 1), P(i + 1, 1)]))
        t.append(np.array([bot, P(i + 1, m - 1), P(i, m - 1)]))
        for j in range(1, m - 1):
            a, b, c, d = P(i, j), P(i, j + 1), P(i + 1, j + 1), P(i + 1, j)
            t += [np.array([a, b, c]), np.array([a, c, d])]
    return t


def split_mid(tris):
    """Every facet in four, at the middles of its sides."""
    out = []
    mid = lambda a, b: (np.array(min(tuple(a), tuple(b))) + np.array(max(tuple(a), tuple(b)))) / 2
    for a, b, c in tris:
        ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
        out += [np.array(x) for x in ([a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca])]
    return out


def split_some(rng, tris, p=.5):
    out = []
    for t in tris:
        if rng.random() < p:
            w = np.array([rng.uniform(.2, 1) for _ in range(3)])
            m = (w / w.sum()) @ t
            out += [np.array([t[k], t[(k + 1) % 3], m]) for k in range(3)]
        else:
            out.append(t)
    return out


def knife(rng):
    """Ridges whose two sides nearly face away from each other and are both seen."""
    if rng.random() < .4:
        # a needle, seen from its tip
        n, r, h = rng.randint(3, 7), rng.uniform(.2, .6), rng.uniform(4, 12)
        ring = [np.array([x, y, 0]) for x, y in G.ngon(0, 0, r, n, rng.random())]
        tip = np.array([rng.uniform(-.05, .05), rng.uniform(-.05, .05), h])
        t = [np.array([ring[k], ring[(k + 1) % n], tip]) for k in range(n)]
        return t + [np.array([ring[0], ring[k + 1], ring[k]]) for k in range(1, n - 1)]
    x, z, prof = 0.0, 0.0, [(0.0, 0.0)]
    s = 1
    for _ in range(rng.randint(2, 5)):
        ang, L = math.pi / 2 - 10 ** rng.uniform(-2, -.7), rng.uniform(1, 4)
        x, z = x + L * math.cos(ang), z + s * L * math.sin(ang)
        prof.append((x, z))
        s = -s
    w = rng.uniform(.4, 2)
    t = []
    for (x0, z0), (x1, z1) in zip(prof, prof[1:]):
        a, b, c, d = (np.array(p) for p in ((x0, 0, z0), (x1, 0, z1), (x1, w, z1), (x0, w, z0)))
        t += [np.array([a, b, c]), np.array([a, c, d])] if rng.random() < .5 else [np.array([a, b, d]), np.array([b, c, d])]
    return t


def c11(env):
    rng = env.rng
    mode = env.index % 6
    if mode == 5:
        view = rng.choice([None, "Z+", "X+", "X-", "Y+", "Y-", "Z-"])
        M = R.view_matrix(view)
        tris = [x @ M.T + 0.0 for x in knife(rng)]
    elif mode == 4:
        # exactly upright over each other in some named view (or none)
        view = rng.choice([None, "Z+", "X+", "X-", "Y+", "Y-", "Z-"])
        M = R.view_matrix(view)
        tris = [x @ M.T + 0.0 for x in layers(rng)]
    elif mode == 0:
        tris = sheet(rng)
        tris = G.transform(tris, G.rand_rot(rng), (0, 0, 0)) if rng.random() < .5 else tris
        view = None if rng.random() < .3 else G.random_view(rng, named=.2)
    elif mode == 1:
        n = rng.choice([16, 24, 30, 31, 32, 33, 40, 64, 100])
        tris = ball(rng) if rng.random() < .5 else G.prism(G.ngon(0, 0, rng.uniform(.5, 2), n, rng.random()), -rng.uniform(.2, 2), 1)
        tris = G.transform(tris, G.rand_rot(rng), (0, 0, 0))
        view = G.random_view(rng, named=.5)
    else:
        tris = G.random_scene(rng, rng.randint(1, 3))
        if rng.random() < .3:
            tris += G.transform(sheet(rng), np.eye(3), (0, 0, -6))
        if rng.random() < .3:
            # holes in the skin: sides with a single facet
            tris = [t for t in tris if rng.random() < .9]
        view = G.random_view(rng, named=.4)
    proj, sc = fit_scale(rng, tris, view)
    if not len(proj.t) or (np.abs(proj.all_nz) < 1e-6).any():
        env.o.inc("skipped: a facet seen edge on")
        return
    at = G.Vec([0, 0])
    files = {}
    files["m"], sc2 = resized(rng, tris, sc)
    pages = [G.page([G.draw("m", at, sc2, view)])]
    alt = None
    if mode in (2, 3):
        alt = rng.choice([split_mid(tris), split_some(rng, tris), split_some(rng, split_mid(tris), .3)])
        alt = [np.roll(t, rng.randrange(3), axis=0) for t in alt]
        rng.shuffle(alt)
        files["n"] = alt
        pages.append(G.page([G.draw("n", at, sc, view)]))
    case = mkcase(files, pages, company=rng)
    r = env.expect_ok(case)
    if not r:
        return
    pg = r.pages()
    dr = R.Drawing(pg[0])
    pl = R.Placement(proj, sc, at.v)
    size = float(np.abs(np.array(tris)).max())
    if mode not in (2, 3):
        vis, hid = check_hidden(env, tris, view, dr.lines, pl, proj, case, margin=2e-4 * size, tag="edges")
        ks = [e[3] for e in proj.edges()]
        env.o.inc("edges that show", ks.count(True))
        env.o.inc("edges that don't", ks.count(False))
    else:
        d2 = R.Drawing(pg[1])
        w = R.ink_diff(dr.lines, d2.lines, 0.03)
        if w:
            env.o.bad("retriangulated", f"cutting flat facets up changed the drawing: {w}", case)
            return
        env.o.inc("strokes compared", len(dr.lines))
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))



# ------------------------------------------------------------------ C12
def scale_text(rng, a, b):
    f = lambda n: rng.choice([str(n), str(n), f"{n}.0", f"+{n}", f"{n}.", f"0{n}"])
    return f"scale = {f(a)}:{f(b)};"


def a_reach(rng):
    """Mostly on the page, now and then far off it."""
    return 10 ** rng.uniform(.3, 2) if rng.random() < .15 else 1


def c12(env):
    rng = env.rng
    tris = some_model(rng) if rng.random() < .6 else G.random_scene(rng, rng.randint(1, 3))
    off = np.array([rng.uniform(-50, 50) for _ in range(3)]) if rng.random() < .5 else np.zeros(3)
    tris = [t + off for t in tris]
    view = G.random_view(rng, named=.6) if rng.random() < .8 else None
    proj = R.Projection(tris, view)
    if not len(proj.t):
        return
    vt = "" if view is None else f"view = {G.view_text(view)};"
    size = size_of(tris)
    pages = [G.page([f"draw m {{ scale = 1:1; @[0, 0]; {vt} }}"])]
    metas = []
    for _ in range(rng.randint(2, 4)):
        a, b = some_scale(rng, size) if rng.random() < .7 else (rng.randint(1, 60), rng.randint(1, 60))
        if rng.random() < .2:
            k = rng.choice([2, 10, 1000])
            a, b = a * k, b * k
        st = scale_text(rng, a, b)
        if rng.random() < .15:
            a, b, st = 1, 1, ""
        at = G.Vec(np.array([rng.uniform(-6, 6), rng.uniform(-5, 5)]) * a_reach(rng), rng.choice([0, 1, 3])) if rng.random() < .8 else None
        parts = [st, "" if at is None else f"@{at};", vt]
        rng.shuffle(parts)
        pages.append(G.page([f"draw m {{ {' '.join(parts)} }}"]))
        metas.append((a, b, at))
    ta = G.Vec(np.array([rng.uniform(-5, 5), rng.uniform(-4, 4)]) * a_reach(rng), 2)
    pages.append(G.page([f'text["here"] {{ @{ta}; }}', 'text["mid"] {}']))
    case = mkcase({"m": tris}, pages, company=rng)
    r = env.expect_ok(case)
    if not r:
        return
    pg = r.pages()
    if len(pg) != len(pages):
        env.o.bad("pages", f"{len(pg)} pages for {len(pages)}", case)
        return
    base = np.array(R.Drawing(pg[0]).lines, float).reshape(-1, 4)
    c0 = np.array([396.0, 306.0] * 2)
    for k, (a, b, at) in enumerate(metas):
        got = R.Drawing(pg[k + 1]).lines
        c1 = np.zeros(2) if at is None else np.array([396, 306]) + 72 * at.v
        f = a / b
        want = (base - c0) * f + np.array([*c1, *c1])
        tol = 4e-3 + 4e-5 * max(np.abs(want).max(initial=0), 0) + f * (2e-3 + 1e-5 * np.abs(base).max(initial=0))
        w = R.ink_diff([tuple(x) for x in want], got, tol)
        if w:
            env.o.bad("affine", f"scale {a}:{b} at {at}: not the 1:1 drawing scaled by {f:.6g} and moved: {w}", case)
            return
        P = np.array(got, float).reshape(-1, 2)
        lo, hi = P.min(axis=0), P.max(axis=0)
        plo, phi = proj.limits()
        wlo, whi = c1 - (phi - plo) / 2 * 72 * f, c1 + (phi - plo) / 2 * 72 * f
        if max(np.abs(lo - wlo).max(), np.abs(hi - whi).max()) > tol:
            env.o.bad("extent", f"scale {a}:{b} at {at}: drawing spans {lo.round(3).tolist()}..{hi.round(3).tolist()}, expected "
                      f"{wlo.round(3).tolist()}..{whi.round(3).tolist()}", case)
            return
        env.o.inc("placements checked")
    tx = {t.s: t for t in pg[-1].texts if t.s}
    for s, w in ((b"here", np.array([396, 306]) + 72 * ta.v), (b"mid", np.array([396, 306]))):
        if s not in tx or not close2(tx[s].at, w, R.tol_at(w)):
            env.o.bad("text", f"text {s!r} at {tx.get(s) and tx[s].at}, expected {w.tolist()}", case)
            return
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


# ------------------------------------------------------------------ C13
SAME = {"Y-": (0, 90), "X-": (90, 90), "X+": (-90, 90), "Y+": (180, 90), "Z+": (0, 0), "Z-": (0, 180)}


def c13(env):
    rng = env.rng
    mode = env.index % 4
    sz = None
    if mode == 0:
        # named views against what they should show, and against their angles
        tris = G.convex(rng, [rng.uniform(-3, 3) for _ in range(3)], rng.uniform(.5, 2), rng.randint(4, 10))
        names = list(G.NAMED)
        rng.shuffle(names)
        pages, views = [], []
        for n in names:
            views.append(n)
            turn = 360 * rng.choice([-1, 0, 0, 0, 1, 2, -3, 10, 1000, -20000, 32768])
            views.append((G.Num(SAME[n][0] + turn), G.Num(SAME[n][1])))
    elif mode == 1:
        tris = G.convex(rng, [rng.uniform(-3, 3) for _ in range(3)], rng.uniform(.5, 2), rng.randint(4, 10))
        views = [None] + [(G.Num(rng.choice([rng.uniform(-400, 400), rng.randint(-8, 8) * 45]), 3),
                           G.Num(rng.choice([rng.uniform(-400, 400), rng.randint(-8, 8) * 45]), 3)) for _ in range(4)]
    elif mode == 2:
        # long and thin, seen very nearly end on
        sz = rng.uniform(1, 3)
        views = []
        L = sz * 10 ** rng.uniform(.5, 4.3)
        n = rng.choice(list(SAME))
        tris = G.prism(G.ngon(0, 0, sz / 2, rng.choice([3, 4, 5, 6]), rng.uniform(.01, 1)), rng.choice([0, -.3, -.5]) * L, L)
        tris = [t @ R.view_matrix(n).T for t in tris]
        for _ in range(4):
            d = lambda: rng.choice([0, 1, 1]) * math.degrees(rng.choice([-1, 1]) * rng.uniform(.2, 2) * sz / L)
            views.append((G.Num(SAME[n][0] + (d() if n[0] != "Z" else rng.choice([0, d(), rng.uniform(-180, 180), rng.uniform(-180, 180)])), 8), G.Num(SAME[n][1] + d(), 8)))
        views.append(n)
    else:
        return c13_turned(env)
    sz = sz or size_of(tris)
    sc = (1, max(1, math.ceil(sz * 72 / 500)))
    at = G.Vec([0, 0])
    pages = [G.page([G.draw("m", at, sc, v)]) for v in views]
    notes = []
    if mode == 2:
        # what is noted at its ends turns with it
        for v in views:
            vs = [rng.choice(rng.choice(tris)) for _ in range(3)]
            if len({tuple(x) for x in vs}) < 3:
                continue
            l = [G.Vec(x, 9) for x in vs]
            d = inplane(R.view_matrix(v), (rng.uniform(.3, 1), rng.uniform(-1, 1)), 0, 6)
            notes.append((v, vs[0]))
            pages.append(G.page([G.draw("m", at, sc, v, [f"dim(at = {l[0]}, from = {l[1]}, to = {l[2]}, dir = {d});"])]))
    case = mkcase({"m": tris}, pages, company=rng)
    r = env.expect_ok(case)
    if not r:
        return
    for (v, x), pg in zip(notes, r.pages()[len(views):]):
        want = R.Placement(R.Projection(tris, v), sc, at.v)(x @ R.view_matrix(v))
        t = [t for t in pg.texts if t.s]
        if len(t) != 1 or not close2(centre(t[0]), want, .02):
            env.o.bad("note", f"a note at the corner {x.tolist()} in view {view_str(v)} lands at {[centre(q).round(3).tolist() for q in t]}, expected {want.round(3).tolist()}", case)
            return
        env.o.inc("notes on something long checked")
    for v, pg in zip(views, r.pages()):
        proj = R.Projection(tris, v)
        es = proj.edges()
        if any(e[3] is None for e in es) or (np.abs(proj.all_nz) < 1e-7).any():
            continue
        pl = R.Placement(proj, sc, at.v)
        want = [seg(pl(e[0]), pl(e[1])) for e in es if e[3]]
        got = R.Drawing(pg).lines
        w = R.ink_diff(want, got, 0.02)
        if w:
            env.o.bad("view", f"view {view_str(v)} of a convex body: {w}", case)
            return
        env.o.inc("views of something long, nearly end on" if mode == 2 else "views checked")
    env.o.note(case.digest())
    env.o.sample(case.script.decode("latin-1"))


def c13_turned(env):
    """A view of a model is the top view of the model turned."""
    rng = env.rng
    tris = G.random_scene(rng, rng.randint(1, 3))
    view = G.random_view(rng, named=.4)
    M = R.view_matrix(view)
    # a point, in the plane of the drawing, to hang a note on
    f, t, a = (G.Vec([rng.uniform(-2, 2) for _ in range(3)], 6) for _ in range(3))
    d = inplane(M, (rng.uniform(.3, 1), rng.uniform(-1, 1)), 0, 6)
    turn = lambda v: G.Vec(v.v @ M, 6)
    ann = lambda f, t, a, d: f"dim(at = {a}, from = {f}, to = {t}, dir = {d});"
    at, sc = G.Vec([0, 0]), (1, 2)
    dt = turn(d)
    case = mkcase({"m": tris, "n": [x @ M for x in tris]},
                  [G.page([G.draw("m", at, sc, view, [ann(f, t, a, d)])]),
                   G.page([G.draw("n", at, sc, None if rng.random() < .5 else "Z+", [ann(turn(f), turn(t), turn(a), dt)])])], company=rng)
    r = env.expect_ok(case)
    if not r:
        return
    p, q = r.pages()
    w = R.ink_diff(p.lines, q.lines, 0.03)
    if w:
        env.o.bad("turned", f"view {view_str(view)} differs from the top view of the model turned that way: {w}", case)
        return
    tp, tq = [t for t in p.texts if t.s], [t for t in q.texts if t.s]
    if len(tp) != 1 or len(tq) != 1 or not close2(centre(tp[0]), centre(tq[0]), .02):
        env.o.bad("turned-note", f"a note lands at {tp} in view {view_str(view)} but at {tq} on the turned model", case)
        return
    env.o.inc("views checked by turning the model")
    env.o.note(case.digest())
