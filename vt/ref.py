"""What the drawing must be, worked out independently of the program."""
import math
import numpy as np

# right, up, toward the viewer: in model axes
VIEW_AXES = {
    "X+": ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    "X-": ((0, -1, 0), (0, 0, 1), (-1, 0, 0)),
    "Y+": ((-1, 0, 0), (0, 0, 1), (0, 1, 0)),
    "Y-": ((1, 0, 0), (0, 0, 1), (0, -1, 0)),
    "Z+": ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "Z-": ((1, 0, 0), (0, -1, 0), (0, 0, -1)),
}


def view_matrix(view):
    """M with view = model @ M (rows are where the model's axes go)."""
    if view is None:
        view = "Z+"
    if isinstance(view, str):
        return np.array(VIEW_AXES[view], float).T
    a, z = math.radians(view[0].v), math.radians(view[1].v)
    ca, sa, cz, sz = math.cos(a), math.sin(a), math.cos(z), math.sin(z)
    spin = np.array([[ca, sa, 0], [-sa, ca, 0], [0, 0, 1]])       # about the model's z
    tilt = np.array([[1, 0, 0], [0, cz, -sz], [0, sz, cz]])       # about the page's x
    return spin @ tilt


def normals(tris):
    n = np.cross(tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0])
    l = np.linalg.norm(n, axis=1, keepdims=True)
    return n / np.where(l == 0, 1, l)


CREASE = 0.98


class Projection:
    """Front-facing part of a model as seen in a view (view coordinates)."""

    def __init__(self, tris, view):
        self.M = view_matrix(view)
        t = np.array(tris).reshape(-1, 3, 3) if len(tris) else np.zeros((0, 3, 3))
        n = normals(t) if len(t) else np.zeros((0, 3))
        tv, nv = t @ self.M, n @ self.M
        self.all_nz = nv[:, 2]
        front = nv[:, 2] > 1e-9
        self.t, self.n = tv[front], nv[front]
        self.model_t = t[front]

    def limits(self):
        if not len(self.t):
            return np.zeros(2), np.zeros(2)
        p = self.t.reshape(-1, 3)[:, :2]
        return p.min(axis=0), p.max(axis=0)

    def center(self):
        lo, hi = self.limits()
        return (lo + hi) / 2

    def edges(self):
        """[(p, q, facets, kind)]: the edges a drawing shows where not hidden;
        kind None means too close to the crease limit to call."""
        by = {}
        for f in range(len(self.t)):
            for k in range(3):
                a, b = tuple(self.model_t[f][k]), tuple(self.model_t[f][(k + 1) % 3])
                key = (a, b) if a < b else (b, a)
                by.setdefault(key, []).append((f, self.t[f][k], self.t[f][(k + 1) % 3]))
        out = []
        for key, fs in by.items():
            p, q = fs[0][1], fs[0][2]
            if len(fs) == 1:
                out.append((p, q, [fs[0][0]], True))
            else:
                d = float(np.dot(self.n[fs[0][0]], self.n[fs[1][0]]))
                kind = True if d < CREASE - 1e-6 else (False if d > CREASE + 1e-6 else None)
                if len(fs) > 2:
                    kind = None
                out.append((p, q, [f[0] for f in fs], kind))
        return out

    def occlusion(self, pts, own, margin):
        """For each 3d point: +1 clearly hidden, -1 clearly visible, 0 can't say.
        own: (points, 2) facet indexes (or -1) not to test against.
        What is behind a point by more than rounding doesn't hide it."""
        m = len(pts)
        res = np.full(m, -1)
        if not len(self.t):
            return res
        P = np.asarray(pts)
        for f in range(len(self.t)):
            T, n = self.t[f], self.n[f]
            # signed distance inside of each side of the projected triangle
            ins = np.full(m, np.inf)
            for k in range(3):
                a, b = T[k][:2], T[(k + 1) % 3][:2]
                e = b - a
                L = np.hypot(*e)
                if L < 1e-12:
                    ins[:] = -np.inf
                    break
                s = (e[0] * (P[:, 1] - a[1]) - e[1] * (P[:, 0] - a[0])) / L
                ins = np.minimum(ins, s)
            z = T[0][2] - (n[0] * (P[:, 0] - T[0][0]) + n[1] * (P[:, 1] - T[0][1])) / n[2]
            dz = z - P[:, 2]               # > 0: the facet is in front
            mine = (own == f).any(axis=1) if own is not None else np.zeros(m, bool)
            hid = (ins > margin) & (dz > margin) & ~mine
            amb = (ins > -margin) & (dz > -margin / 100) & ~hid & ~mine
            res[hid] = 1
            res[amb & (res == -1)] = 0
        return res


class Placement:
    """View coordinates -> page points."""

    def __init__(self, proj, scale=(1, 1), at=None):
        self.s = 72.0 * scale[0] / scale[1]
        loc = np.zeros(2) if at is None else np.array([396.0, 306.0]) + 72.0 * np.asarray(at, float)
        self.d = loc - proj.center() * self.s
        self.M = proj.M

    def __call__(self, p):
        return np.asarray(p, float)[..., :2] * self.s + self.d


def tol_at(*pts):
    m = max((abs(float(c)) for p in pts for c in p), default=0.0)
    return 2e-3 + 2e-5 * m


# ---------------------------------------------------------------- comparing strokes
def seg_close(a, b, tol=None):
    """Same segment whichever end is drawn first."""
    if tol is None:
        tol = tol_at(a[:2], a[2:], b[:2], b[2:])
    d1 = max(abs(x - y) for x, y in zip(a, b))
    d2 = max(abs(x - y) for x, y in zip(a, (*b[2:], *b[:2])))
    return min(d1, d2) <= tol


def subtract(big, small):
    """Multiset difference of segments up to tolerance: (left, missing)."""
    left = list(big)
    missing = []
    for s in small:
        for i, b in enumerate(left):
            if seg_close(b, s):
                left.pop(i)
                break
        else:
            missing.append(s)
    return left, missing


def match_segs(got, want):
    """None, or text on how the two multisets of segments differ."""
    left, missing = subtract(got, want)
    if not left and not missing:
        return None
    r = lambda s: tuple(round(float(x), 4) for x in s)
    return f"missing {[r(s) for s in missing[:4]]}, unexpected {[r(s) for s in left[:4]]}"


def points_on(segs, step=2.0, inner=True):
    out = []
    for s in segs:
        a, b = np.array(s[:2], float), np.array(s[2:], float)
        L = np.hypot(*(b - a))
        n = int(min(400, max(3, L / step)))
        for k in range(n + 1):
            out.append(a + (b - a) * k / n)
    return np.array(out).reshape(-1, 2)


def dist_to_segs(pts, segs):
    pts = np.asarray(pts, float).reshape(-1, 2)
    best = np.full(len(pts), np.inf)
    for s in segs:
        a, b = np.array(s[:2], float), np.array(s[2:], float)
        e = b - a
        L2 = float(e @ e)
        if L2 == 0:
            d = np.hypot(*(pts - a).T)
        else:
            t = np.clip(((pts - a) @ e) / L2, 0, 1)
            d = np.hypot(*(pts - a - t[:, None] * e).T)
        best = np.minimum(best, d)
    return best


def ink_diff(A, B, tol=None):
    """Do two sets of strokes put the same ink on the page?  None or a witness.
    Strokes too short to see needn't be in both."""
    for X, Y, w in ((A, B, "first"), (B, A, "second")):
        X = [x for x in X if math.hypot(x[2] - x[0], x[3] - x[1]) > max(.02, tol or 0)]
        if not X:
            continue
        P = points_on(X)
        t = tol if tol is not None else 4e-3 + 4e-5 * float(np.abs(P).max())
        if not Y:
            return f"only the {w} has ink at {P[0].round(3).tolist()}"
        d = dist_to_segs(P, Y)
        i = int(np.argmax(d))
        if d[i] > t:
            return f"only the {w} has ink at {P[i].round(3).tolist()} ({d[i]:.4g}pt off)"
    return None


# ---------------------------------------------------------------- page furniture
def title_box(name):
    x = float(np.float32(784 - len(name) * 8 * 0.6)) - 3
    return [(x, 5, x, 16), (x, 16, 787, 16)], (float(np.float32(784 - len(name) * 8 * 0.6)), 8)


BORDER = [(5, 5, 5, 607), (5, 607, 787, 607), (787, 607, 787, 5), (787, 5, 5, 5)]


class Drawing:
    """A page's trace with border and title box taken off."""

    def __init__(self, page, name=b""):
        want = BORDER + title_box(name)[0]
        self.lines, self.missing = subtract(page.lines, want)
        self.arcs = page.arcs
        self.texts = page.texts
