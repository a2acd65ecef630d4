"""Exact (rational) reference geometry for interpolation grids.

Everything is computed with Fractions by brute force from the definitions:
a triangle is a possible Delaunay cell if no grid point is strictly inside of its
circumcircle, a pair of points is a hull facet if all points lie on one side and
none strictly between them.  Where the triangulation is not unique (cocircular
points) all possible cells are candidates.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction as F


def exact(points):
    return [tuple(F(float(c)) for c in (p if hasattr(p, "__len__") else (p,))) for p in points]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def dist2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def triangles(pts):
    """Index triples of all possible Delaunay triangles."""
    res = []
    for t in itertools.combinations(range(len(pts)), 3):
        a, b, c = (pts[i] for i in t)
        o = cross(a, b, c)
        if o == 0:
            continue
        if o < 0:
            b, c = c, b
        ok = True
        for i, p in enumerate(pts):
            if i in t:
                continue
            m = [(q[0] - p[0], q[1] - p[1], dist2(q, p)) for q in (a, b, c)]
            det = (
                m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
                - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
            )
            if det > 0:
                ok = False
                break
        if ok:
            res.append(t)
    return res


def hull_facets(pts):
    """All pairs of grid points bounding the convex hull (split at collinear points)."""
    res = []
    for i, j in itertools.combinations(range(len(pts)), 2):
        side = [cross(pts[i], pts[j], p) for p in pts]
        if not (all(s >= 0 for s in side) or all(s <= 0 for s in side)):
            continue
        between = any(
            s == 0 and k not in (i, j) and 0 < _dot(pts[i], pts[j], p) < dist2(pts[i], pts[j])
            for k, (s, p) in enumerate(zip(side, pts))
        )
        if not between:
            res.append((i, j))
    return res


def _dot(o, a, b):
    return sum((x - z) * (y - z) for x, y, z in zip(a, b, o))


def bary(tri_pts, t):
    """Barycentric coordinates (exact) of t."""
    a, b, c = tri_pts
    d = cross(a, b, c)
    return cross(t, b, c) / d, cross(a, t, c) / d, cross(a, b, t) / d


def line(x0, x1, t):
    w = (t - x0) / (x1 - x0)
    return 1 - w, w


class Grid:
    """Reference model of an interpolation grid in 1 or 2 dimensions."""

    def __init__(self, points):
        self.pts = exact(points)
        self.dim = len(self.pts[0])
        self.n = len(self.pts)
        if self.dim == 1:
            self.order = sorted(range(self.n), key=lambda i: self.pts[i])
        elif self.dim == 2:
            self.tri = triangles(self.pts)
            self.hull = hull_facets(self.pts)

    # -- position of a target
    def target(self, t):
        return exact([t])[0]

    def inside(self, t):
        """Is t inside or on the border of the convex hull."""
        t = self.target(t)
        if self.dim == 1:
            return self.pts[self.order[0]] <= t <= self.pts[self.order[-1]]
        for i, j in self.hull:
            inner = next(s for s in (cross(self.pts[i], self.pts[j], p) for p in self.pts) if s != 0)
            if cross(self.pts[i], self.pts[j], t) * inner < 0:
                return False
        return True

    def node(self, t):
        t = self.target(t)
        return self.pts.index(t) if t in self.pts else None

    # -- cells: lists of candidate {grid point: weight}
    def cells(self, t):
        """Candidate interpolation weights of a target inside of the grid."""
        t = self.target(t)
        res = []
        if self.dim == 1:
            for a, b in zip(self.order[:-1], self.order[1:]):
                if self.pts[a] <= t <= self.pts[b]:
                    res.append(dict(zip((a, b), line(self.pts[a][0], self.pts[b][0], t[0]))))
        else:
            for tri in self.tri:
                w = bary([self.pts[i] for i in tri], t)
                if min(w) >= 0:
                    res.append(dict(zip(tri, w)))
        return res

    def facet_triangles(self, facet):
        return [t for t in self.tri if facet[0] in t and facet[1] in t]

    def simplex_weights(self, tri, t):
        t = self.target(t)
        return dict(zip(tri, bary([self.pts[i] for i in tri], t)))

    def facet_distance(self, facet, t):
        """Exact squared distance of a target from a facet (a line segment)."""
        t = self.target(t)
        a, b = (self.pts[i] for i in facet)
        r = _dot(a, b, t) / dist2(a, b)
        r = min(max(r, F(0)), F(1))
        return dist2(t, tuple(x + r * (y - x) for x, y in zip(a, b)))

    def facet_angle(self, facet, t):
        """Angle under which the facet is seen from t."""
        t = self.target(t)
        a, b = (self.pts[i] for i in facet)
        return abs(math.atan2(float(cross(t, a, b)), float(_dot(t, a, b))))

    def nearest(self, t, tol=1e-9):
        """Candidate extrapolation weights: cells at the nearest hull facet, of
        equally near ones (common corner) the one seen under the largest angle."""
        if self.dim == 1:
            tt = self.target(t)
            a, b = self.order[:2] if tt < self.pts[self.order[0]] else self.order[-2:]
            return [dict(zip((a, b), line(self.pts[a][0], self.pts[b][0], tt[0])))]
        d = {f: self.facet_distance(f, t) for f in self.hull}
        dmin = min(d.values())
        near = [f for f in self.hull if float(d[f]) <= float(dmin) * (1 + tol)]
        ang = {f: self.facet_angle(f, t) for f in near}
        # equally near facets without common corner: not unique
        best = []
        for f in near:
            rivals = [g for g in near if g != f and set(g) & set(f)]
            if all(ang[f] >= ang[g] - 1e-6 for g in rivals):
                best.append(f)
        return [self.simplex_weights(tri, t) for f in best for tri in self.facet_triangles(f)]

    def visible(self, t):
        """Hull facets with the target on their outer side."""
        tt = self.target(t)
        res = []
        for i, j in self.hull:
            inner = next(s for s in (cross(self.pts[i], self.pts[j], p) for p in self.pts) if s != 0)
            if cross(self.pts[i], self.pts[j], tt) * inner < 0:
                res.append((i, j))
        return res

    def blended(self, t, m=1):
        """Candidate weights of the visible-edges extrapolation."""
        if self.dim == 1:
            return self.nearest(t)
        vis = self.visible(t)
        if len(vis) == 1:
            return [self.simplex_weights(tri, t) for tri in self.facet_triangles(vis[0])]
        ang = [self.facet_angle(f, t) ** (m + 1) for f in vis]
        res = []
        for tris in itertools.product(*[self.facet_triangles(f) for f in vis]):
            w = {}
            for a, tri in zip(ang, tris):
                for i, c in self.simplex_weights(tri, t).items():
                    w[i] = w.get(i, 0.0) + a / sum(ang) * float(c)
            res.append(w)
        return res

    def unique(self):
        return self.dim == 1 or 2 * len(self.tri) == 2 * (2 * self.n - len(self.hull) - 2)


# ------------------------------------------------------------------ alphabets
GRIDS_1D = {
    "two": [0.0, 1.0],
    "neg": [-2.0, 0.0, 1.0, 5.0],
    "three": [10.0, 20.0, 40.0],
    "six": [0.0, 1.0, 1.5, 3.0, 4.0, 8.0],
    "minus": [-40.0, -30.0, -12.0],
    "tiny": [0.0005, 0.001, 0.0025],
    "micro": [x * 2.0**-25 for x in (2, 3, 5)],
    "close": [0.25, 0.250000125, 0.2500005],
    "large": [-4e5, 1e5, 3e5],
    "many": [0.25 * k + 0.125 * (k % 3 == 1) + (0.5 if k > 11 else 0) for k in range(-14, 20)],
    "twelve": [-6.5, -5.0, -4.5, -4.0, -2.0, -1.0, -0.5, 0.0, 1.0, 2.0, 3.5, 6.0],
}
GRIDS_2D = {
    # unique triangulations
    "triangle": [(0.0, 0.0), (4.0, 0.0), (1.0, 3.0)],
    "quad": [(0.0, 0.0), (4.0, 0.5), (5.0, 4.0), (0.5, 3.0)],
    "inner": [(0.0, 0.0), (6.0, 0.0), (7.0, 5.0), (1.0, 6.0), (3.0, 2.0)],
    "wide": [(20.0, 0.0), (40.0, 10.0), (25.0, 180.0), (60.0, 200.0), (52.0, 90.0)],
    "obtuse": [(0.0, 0.0), (8.0, 0.0), (4.0, 1.0), (4.5, 6.0), (-1.0, 4.0)],
    "hexa": [(0.0, 0.0), (4.0, -1.0), (7.0, 2.0), (6.0, 6.0), (2.0, 7.0), (-1.0, 3.0), (3.0, 3.5)],
    "minus": [(-9.0, -2.0), (-4.0, -6.0), (-1.0, -1.5), (-7.0, -0.5)],
    "micro": [(x * 2.0**-27, y * 2.0**-27) for x, y in ((0, 0), (4, 0.5), (5, 4), (0.5, 3))],
    "close": [(0.25 + x * 2.0**-13, 0.75 + y * 2.0**-13) for x, y in ((0, 0), (4, 0.5), (5, 4), (0.5, 3))],
    "large": [(-2e5, 1e6), (2e5, 1.05e6), (3e5, 1.4e6), (-1.5e5, 1.3e6)],
    # ambiguous triangulations
    "square": [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)],
    "regular": [(x, y) for x in (0.0, 1.0, 2.0) for y in (0.0, 1.0, 2.0)],
    "rect": [(x, y) for x in (10.0, 20.0, 40.0) for y in (0.0, 90.0, 180.0, 270.0)],
}
GRIDS_3D = {
    "tetra": [(0.0, 0.0, 0.0), (2.0, 0.0, 0.0), (0.0, 4.0, 0.0), (0.0, 0.0, 1.0)],
    "cube": [(x, y, z) for x in (0.0, 1.0) for y in (0.0, 2.0) for z in (-1.0, 1.0)],
}


def targets_1d(points, dense=4):
    """Lattice through and around a 1D grid incl. all nodes (dyadic for dyadic grids)."""
    p = sorted(points)
    span = p[-1] - p[0]
    res = list(p)
    for a, b in zip(p[:-1], p[1:]):
        res += [a + (b - a) * k / dense for k in range(1, dense)]
    res += [p[0] - span * f for f in (0.125, 0.5, 1.0, 3.0)]
    res += [p[-1] + span * f for f in (0.125, 0.5, 1.0, 3.0)]
    return sorted(set(res))


def targets_2d(points, n=8, border=0.5):
    """n x n lattice on the bounding box enlarged by `border` of its size on each side,
    plus all grid points, middles of pairs, centroids of triples."""
    xs, ys = zip(*points)
    res = set(points)
    for lo_x, w in ((min(xs), max(xs) - min(xs)),):
        lo_y, h = min(ys), max(ys) - min(ys)
        for i in range(n + 1):
            for j in range(n + 1):
                res.add((lo_x - border * w + (1 + 2 * border) * w * i / n,
                         lo_y - border * h + (1 + 2 * border) * h * j / n))
    for a, b in itertools.combinations(points, 2):
        res.add(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
    return sorted(res)
