import itertools
import math
import warnings

import astropy.units as u
import numpy as np

from mc.grid import GRIDS_1D, GRIDS_2D, GRIDS_3D, Grid, targets_1d, targets_2d
from mc.util import eq, fail, layouts, need, pure

SPACE = """All combinations of a family of 1D, 2D and 3D grids (2 to 12 points, non-uniform, obtuse, ambiguous triangulations), given in canonical
and reversed order, with every target of a lattice through and around the grid (all nodes, middles of all pairs of nodes, points outside at
different distances), all parameter shapes of a family with axes of length one, affine and arbitrary parameter values, the extrapolators
(nearest simplex, visible edges with m = 1, 2, 3) and the estimators (parametrised, effective area, rad max without fill value) plus the bare
inter-/extrapolator classes. Reference: Delaunay cells, hull facets, barycentric weights and distances computed in rational arithmetic from
the definitions; where the triangulation is not unique any of the possible cells is accepted (the same one for all parameters).
The same for all 2D grids with rounding errors of the coordinates (9 patterns of 1 or 2 units in the last place)."""
ASSUMPTIONS = ["targets with equally distant border facets that share no corner have more than one accepted result",
               "two dimensional extrapolation is limited to one and two grid dimensions (NotImplementedError otherwise)"]

SHAPES = [(), (1,), (3,), (2, 3), (1, 3), (3, 1), (1, 1), (2, 1, 3)]


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for name in GRIDS_1D:
        js.append(dict(kind="param", dim=1, grid=name, rev=False, deep=deep))
        js.append(dict(kind="param", dim=1, grid=name, rev=True, deep=deep))
    for name in GRIDS_2D:
        for rev in (False, True):
            js.append(dict(kind="param", dim=2, grid=name, rev=rev, deep=deep))
    js += [dict(kind="three", grid=g, deep=deep) for g in GRIDS_3D]
    js += [dict(kind="aeff", dim=d, grid=g, deep=deep) for d, g in ((1, "neg"), (1, "three"), (2, "inner"), (2, "quad"), (2, "hexa"))]
    js += [dict(kind="bare", dim=d, grid=g) for d, g in ((1, "neg"), (2, "inner"), (2, "square"))]
    js += [dict(kind="border", grid=g) for g in ("triangle", "quad", "inner", "obtuse", "hexa", "regular")]
    js += [dict(kind="rotated", angle=a, deep=deep) for a in (0, 7, 25, 30, 41, 45, 58, 90, 103, 151, 180, 211)]
    js += [dict(kind="noise", grid=name, deep=deep) for name in GRIDS_2D if name not in ("micro", "close")]
    js.append(dict(kind="dtypes"))
    js.append(dict(kind="errors"))
    return js


def values(n, shape, points=None):
    """Arbitrary distinct (points=None) or affine parameters, different for every entry."""
    size = int(np.prod(shape)) if shape else 1
    res = np.empty((n, size))
    for j in range(size):
        for i in range(n):
            if points is None:
                res[i, j] = 3.0 * math.sin(1.0 + 2.7 * i + 1.3 * j + 0.77 * i * j) + 0.5 * j
            else:
                c = [1.0 + 0.5 * j] + [(0.75 - 0.5 * k) * (j + 1) + 0.125 * k for k in range(len(points[i]))]
                res[i, j] = c[0] + sum(a * b for a, b in zip(c[1:], points[i]))
    return res.reshape((n,) + shape)


def affine_at(t, shape):
    size = int(np.prod(shape)) if shape else 1
    res = np.empty(size)
    for j in range(size):
        c = [1.0 + 0.5 * j] + [(0.75 - 0.5 * k) * (j + 1) + 0.125 * k for k in range(len(t))]
        res[j] = c[0] + sum(a * b for a, b in zip(c[1:], t))
    return res.reshape(shape)


def out_shape(shape):
    return (1,) + (shape or (1,))


def matches(got, candidates, params, what, rtol=1e-9):
    """got equals the weighted sum of params for one candidate set of weights."""
    shape = params.shape[1:] or (1,)
    need(np.shape(got) == (1,) + shape, lambda: f"{what}: shape {np.shape(got)}, expected {(1,) + shape}")
    p = params.reshape((len(params),) + shape)
    best = None
    for w in candidates:
        want = sum(float(c) * p[i] for i, c in w.items())
        scale = sum(abs(float(c)) * np.abs(p[i]) for i, c in w.items())
        d = np.abs(np.asarray(got)[0] - want)
        bad = float(np.max(np.where(np.isfinite(d), d / (scale + 1e-30), np.inf)))
        if best is None or bad < best[0]:
            best = (bad, want)
    need(best is not None and best[0] <= rtol,
         lambda: f"{what}: {np.asarray(got)[0].tolist()} expected {best and best[1].tolist()} (relative error {best and best[0]:.3g}, {len(candidates)} candidates)")


def points(job):
    pts = [(x,) for x in GRIDS_1D[job["grid"]]] if job["dim"] == 1 else list(GRIDS_2D[job["grid"]])
    if job.get("rev"):
        # reversed and rotated: not sorted in 1D either
        pts = pts[::-1]
        pts = pts[1:] + pts[:1] if len(pts) > 2 else pts
    tg = [(t,) for t in targets_1d([p[0] for p in pts])] if job["dim"] == 1 else targets_2d(pts, 12 if job.get("deep") else 6)
    return pts, tg


def run(job, rec):
    from pyirf.interpolation import (
        EffectiveAreaEstimator,
        GridDataInterpolator,
        ParametrizedComponentEstimator,
        ParametrizedNearestSimplexExtrapolator,
        ParametrizedVisibleEdgesExtrapolator,
        RadMaxEstimator,
    )

    NS, VE = ParametrizedNearestSimplexExtrapolator, ParametrizedVisibleEdgesExtrapolator

    if job["kind"] == "param":
        pts, tg = points(job)
        g = Grid(pts)
        arr = np.array(pts)
        if job["dim"] == 1 and job["rev"]:
            arr = arr[:, 0]
        algos = [("ns", NS, None), ("ve1", VE, None), ("ve2", VE, dict(m=2))] + ([("ve3", VE, dict(m=3))] if job["deep"] or job["dim"] == 2 else [])
        info = {}
        for t in tg:
            inside = g.inside(t)
            cand = {"in": g.cells(t)} if inside else {"ns": g.nearest(t), **{f"ve{m}": g.blended(t, m) for m in (1, 2, 3)}}
            info[t] = (inside, cand)
        for shape in SHAPES:
            arb, aff = values(len(pts), shape), values(len(pts), shape, pts)
            for label, ex, kw in algos:
                for cls in (ParametrizedComponentEstimator, RadMaxEstimator):
                    if cls is RadMaxEstimator and (shape == () or label not in ("ns", "ve1")):
                        continue
                    mk = dict(extrapolator_cls=ex, extrapolator_kwargs=kw)
                    offset = 0.0
                    if cls is RadMaxEstimator:
                        offset = 500.0  # rad max values are positive
                    ea, el = cls(arr, arb + offset, **mk), cls(arr, aff + offset, **mk)
                    for t in tg:
                        inside, cand = info[t]
                        if inside and label != "ns":
                            continue
                        with rec.case(cls.__name__, job["grid"], "reversed" if job["rev"] else "", "shape", shape, label, "target", t):
                            tp = np.array([t])
                            got = ea(tp)
                            c = cand["in" if inside else label]
                            if cls is RadMaxEstimator:
                                w = sum(abs(float(x)) for x in c[0].values())
                                if w > 50:
                                    continue  # could be clipped at zero
                            matches(got, c, arb + offset, "arbitrary parameters")
                            rec.outcome(round(float(np.ravel(got)[0]), 6))
                            got = el(np.array(t))
                            want = affine_at(t, shape or (1,)) + offset
                            if cls is RadMaxEstimator and np.any(want < 0):
                                want = np.maximum(want, 0)
                            scale = sum(abs(float(x)) for x in c[0].values()) * (np.max(np.abs(aff)) + offset)
                            eq(got, want[np.newaxis], what="affine parameters", atol=1e-10 * scale)
    elif job["kind"] == "three":
        pts = GRIDS_3D[job["grid"]]
        lo, hi = np.min(pts, axis=0), np.max(pts, axis=0)
        arr = np.array(pts)
        n = 8 if job["deep"] else 4
        ws = [w for w in itertools.product(range(n + 1), repeat=3)]
        for shape in SHAPES:
            e = ParametrizedComponentEstimator(arr, values(len(pts), shape, pts))
            for w in ws:
                t = tuple(float(a + (b - a) * k / n) for a, b, k in zip(lo, hi, w))
                if job["grid"] == "tetra":
                    if t[0] / 2 + t[1] / 4 + t[2] > 1:
                        continue
                with rec.case("3D", job["grid"], shape, t):
                    eq(e(np.array([t])), affine_at(t, shape or (1,))[np.newaxis], what="affine parameters", atol=1e-10)
        for cls in (NS, VE):
            with rec.case("3D extrapolation is refused", job["grid"], cls.__name__):
                try:
                    ParametrizedComponentEstimator(arr, values(len(pts), (2,)), extrapolator_cls=cls)
                except NotImplementedError:
                    pass
                else:
                    fail("no NotImplementedError for extrapolation of 3D grids")
    elif job["kind"] == "aeff":
        pts, tg = points(job)
        g = Grid(pts)
        arr = np.array(pts)
        for shape in ((3,), (2, 3), (1, 2), (2, 1)):
            log_aff = values(len(pts), shape, pts)
            log_aff = log_aff / np.max(np.abs(log_aff)) * 4 + 6
            log_arb = values(len(pts), shape) + 5
            for unit, kw, floor in (("m2", {}, 1.0), ("km2", dict(min_effective_area=50 * u.m**2), 50.0), ("cm2", dict(min_effective_area=2e5 * u.cm**2), 20.0), ("m2", dict(min_effective_area=1e-9 * u.m**2), 1e-9)):
                for variant in ("affine", "arbitrary", "zeros"):
                    area = np.exp(log_aff if variant == "affine" else log_arb) * min(floor, 1.0)
                    if variant == "zeros":
                        area = area.copy()
                        area[0] = 0
                        area[-1].flat[0] = floor / 2
                        area[1].flat[-1] = floor
                    q = (area * u.m**2).to(unit)
                    es = {l: EffectiveAreaEstimator(arr, q, extrapolator_cls=ex, **kw) for l, ex in (("ns", NS), ("ve1", VE))}
                    logs = np.log(np.maximum(area, floor))
                    for t in tg:
                        inside = g.inside(t)
                        for l, e in es.items():
                            if inside and l != "ns":
                                continue
                            cands = g.cells(t) if inside else (g.nearest(t) if l == "ns" else g.blended(t))
                            with rec.case("aeff", job["grid"], shape, unit, variant, "floor", floor, l, t):
                                if max(abs(float(c)) for c in cands[0].values()) > 20:
                                    continue
                                got = e(np.array([t]))
                                need(got.unit.is_equivalent(u.m**2), "no area")
                                v = got.to_value(u.m**2)
                                need(v.shape == (1,) + shape, lambda: f"shape {v.shape}")
                                ok = False
                                for w in cands:
                                    want = sum(float(c) * logs[i] for i, c in w.items())
                                    z = want <= math.log(floor) + 1e-9
                                    near = np.abs(want - math.log(floor)) < 1e-8
                                    good = np.where(z, v[0] == 0, np.abs(v[0] / np.exp(want) - 1) < 1e-8) | (near & ((v[0] == 0) | (np.abs(v[0] / floor - 1) < 1e-7)))
                                    # exactly min_effective_area everywhere has to give zero
                                    exact = np.all([logs[i] == math.log(floor) for i, c in w.items() if c != 0], axis=0)
                                    good &= ~exact | (v[0] == 0)
                                    ok |= bool(np.all(good))
                                need(ok, lambda: f"effective area {v[0].tolist()}, expected {np.where(z, 0, np.exp(want)).tolist()}")
    elif job["kind"] == "bare":
        pts, tg = points(job)
        g = Grid(pts)
        arr = np.array(pts)
        for shape in SHAPES:
            arb = values(len(pts), shape)
            inter = GridDataInterpolator(arr, arb)
            exs = [("ns", NS(arr, arb)), ("ve1", VE(arr, arb)), ("ve2", VE(arr, arb, m=2))]
            for t in tg:
                with rec.case("bare", job["grid"], shape, t):
                    tp = np.array([t])
                    if g.inside(t):
                        got = pure(inter, tp) if shape == (2, 3) else inter(tp)
                        matches(got, g.cells(t), arb, "GridDataInterpolator")
                        matches(inter.interpolate(tp), g.cells(t), arb, "interpolate")
                    else:
                        for l, e in exs:
                            c = g.nearest(t) if l == "ns" else g.blended(t, int(l[-1]))
                            got = pure(e, tp, label=l) if shape == (2, 3) else e(tp)
                            matches(got, c, arb, l)
                            matches(e.extrapolate(tp), c, arb, l)
            if job["dim"] == 1:
                for method, order in (("nearest", None), ("cubic", None)):
                    e = ParametrizedComponentEstimator(arr, arb, interpolator_kwargs=dict(method=method))
                    for i, p in enumerate(pts):
                        with rec.case("method", method, shape, p):
                            eq(e(np.array([p])), arb[i].reshape(out_shape(shape)), what=method, rtol=1e-8, atol=1e-8)
                    if method == "nearest":
                        for t in tg:
                            d = sorted((abs(p[0] - t[0]), i) for i, p in enumerate(pts))
                            if not g.inside(t) or d[0][0] == d[1][0]:
                                continue
                            with rec.case("method nearest", shape, t):
                                eq(e(np.array([t])), arb[d[0][1]].reshape(out_shape(shape)), what=method)
    elif job["kind"] == "border":
        pts = list(GRIDS_2D[job["grid"]])
        g = Grid(pts)
        arr = np.array(pts)
        arb = values(len(pts), (2, 3))
        es = [VE, VE, NS]
        es = [ParametrizedComponentEstimator(arr, arb, extrapolator_cls=VE),
              ParametrizedComponentEstimator(arr, arb, extrapolator_cls=VE, extrapolator_kwargs=dict(m=3)),
              ParametrizedComponentEstimator(arr, arb, extrapolator_cls=NS)]
        centre = np.mean(arr, axis=0)
        for i, j in g.hull:
            for k in range(0, 9):
                p = arr[i] + (arr[j] - arr[i]) * k / 8
                if not g.inside(tuple(p)):
                    p = p + (centre - p) * 1e-9
                n = np.array([arr[j][1] - arr[i][1], arr[i][0] - arr[j][0]])
                n = n / np.linalg.norm(n)
                if np.dot(n, p - centre) < 0:
                    n = -n
                for eps in (1e-5, 1e-7):
                    for tilt in (0.0, 0.9, -0.9):
                        d = n + tilt * np.array([-n[1], n[0]])
                        t = p + eps * d
                        if g.inside(tuple(t)):
                            continue
                        for name, e in zip(("ve", "ve3", "ns"), es):
                            with rec.case("border", job["grid"], (i, j), k, eps, tilt, name):
                                a, b = e(np.array([p])), e(np.array([t]))
                                need(np.all(np.abs(a - b) < 300 * eps), lambda: f"discontinuous at the border {p}: {a.tolist()} vs {b.tolist()}")
    elif job["kind"] == "rotated":
        # grids whose border points lie on straight lines up to rounding errors, targets arbitrarily close to the border
        phi = math.radians(job["angle"])
        rot = np.array([[math.cos(phi), -math.sin(phi)], [math.sin(phi), math.cos(phi)]])
        for name, (xs, ys) in {"3x3": ([0, 1.3, 2], [0, 1, 2.7]), "4x3": ([0, 0.1, 0.3, 1.7], [0, 1.0, 1.1]), "3x2": ([-1.1, 0.2, 0.7], [0.3, 0.9])}.items():
            arr = np.array(list(itertools.product(xs, ys)), dtype=float) @ rot.T
            for shape in ((), (2, 3)):
                aff = values(len(arr), shape, arr)
                es = [("ve1", ParametrizedComponentEstimator(arr, aff, extrapolator_cls=VE)),
                      ("ve3", ParametrizedComponentEstimator(arr, aff, extrapolator_cls=VE, extrapolator_kwargs=dict(m=3))),
                      ("ns", ParametrizedComponentEstimator(arr, aff, extrapolator_cls=NS))]
                scale = 10 * np.max(np.abs(aff))
                for f in (0.08, 0.2, 0.37, 0.55, 0.7, 0.93):
                    for d in (1e-1, 1e-3, 1e-5, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 0.0, -1e-12, -1e-9, -1e-3):
                        x, y = xs[0] + f * (xs[-1] - xs[0]), ys[0] + f * (ys[-1] - ys[0])
                        for side, t in (("bottom", (x, ys[0] - d)), ("top", (x, ys[-1] + d)), ("left", (xs[0] - d, y)), ("right", (xs[-1] + d, y))):
                            t = rot @ np.array(t)
                            for l, e in es:
                                with rec.case("rotated", name, job["angle"], shape, "position", f, "distance", d, side, l):
                                    got = e(np.array([t]))
                                    eq(got, affine_at(t, shape or (1,))[np.newaxis], what="affine parameters", atol=1e-7 * scale)
                                    rec.outcome(round(float(np.ravel(got)[0]), 5))
    elif job["kind"] == "noise":
        # coordinates that differ from the grid of the model by rounding errors only, as after changing units (0.1 * 3 != 0.3)
        pts = list(GRIDS_2D[job["grid"]])
        g = Grid(pts)
        tg = targets_2d(pts, 9 if job["deep"] else 6)
        arb = values(len(pts), (2,))
        for k, (pattern, cycle) in enumerate(itertools.product(("x", "y", "xy"), ((0, 1), (1, -1, 0), (0, 0, 2, -1)))):
            ulp = np.array([[cycle[(i * (1 + j) + j) % len(cycle)] if "xy"[j] in pattern else 0 for j in range(2)] for i in range(len(pts))])
            arr = np.array(pts)
            arr = arr + ulp * np.spacing(np.maximum(np.abs(arr), 0.25))
            es = [(l, ParametrizedComponentEstimator(arr, arb, extrapolator_cls=ex)) for l, ex in (("ns", NS), ("ve1", VE))]
            for t in tg:
                if g.inside(t) and any(not g.inside((t[0] + dx, t[1] + dy)) for dx in (-1e-6, 1e-6) for dy in (-1e-6, 1e-6)):
                    continue  # on the border, might be slightly outside
                for l, e in es:
                    if g.inside(t) and l != "ns":
                        continue
                    with rec.case("noise", job["grid"], k, l, t):
                        c = g.cells(t) if g.inside(t) else g.nearest(t) if l == "ns" else g.blended(t)
                        matches(e(np.array([t])), c, arb, l, rtol=1e-6)
    elif job["kind"] == "dtypes":
        for dim, name in ((1, "neg"), (1, "six"), (2, "inner"), (2, "quad")):
            pts = [(x,) for x in GRIDS_1D[name]] if dim == 1 else list(GRIDS_2D[name])
            g = Grid(pts)
            vals = np.round(values(len(pts), (2, 3)) * 8)
            arr = np.array(pts)
            tg = [(t,) for t in targets_1d([p[0] for p in pts])] if dim == 1 else targets_2d(pts, 4)
            for (la, a), (lv, v) in itertools.product(layouts(arr), layouts(vals)):
                if "bigendian" in (la,):
                    continue
                if lv == "bigendian":
                    continue
                for ex, l in ((NS, "ns"), (VE, "ve1")):
                    e = ParametrizedComponentEstimator(a, v, extrapolator_cls=ex)
                    for t in tg:
                        with rec.case("dtypes", name, la, lv, l, t):
                            inside = g.inside(t)
                            c = g.cells(t) if inside else (g.nearest(t) if l == "ns" else g.blended(t))
                            for tp in [np.array([t])] + ([np.array([t]).astype(int)] if all(float(x).is_integer() for x in t) else []):
                                matches(e(tp), c, vals, f"target {tp.dtype}", rtol=1e-9 if "float32" not in (la, lv) else 1e-5)
    elif job["kind"] == "errors":
        for name in ("neg", "inner"):
            arr = np.array(GRIDS_1D[name])[:, np.newaxis] if name in GRIDS_1D else np.array(GRIDS_2D[name])
            arb = values(len(arr), (2,))
            for m, exc in ((0, ValueError), (-1, ValueError), (1.5, ValueError), (float("inf"), ValueError), (float("nan"), ValueError), ("1", TypeError), (None, TypeError)):
                with rec.case("invalid m", name, m):
                    from mc.util import raises

                    raises((exc,), VE, arr, arb, m=m)
                    raises((exc,), ParametrizedComponentEstimator, arr, arb, extrapolator_cls=VE, extrapolator_kwargs=dict(m=m))
            for m in (1, 2, 3.0, np.int64(4), 10):
                with rec.case("valid m", name, m):
                    VE(arr, arb, m=m)
