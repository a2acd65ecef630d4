import itertools

import astropy.units as u
import numpy as np

from mc.grid import GRIDS_1D, GRIDS_2D, Grid, targets_1d, targets_2d
from mc.pdfs import EDGES, OFFSETS, mean, pdf, shapes, widths
from mc.util import fail, need

SPACE = """All assignments of the PDFs of an alphabet (empty, every single bin, flat, peak, ramp, pair, separated bins) to the grid points of 1D
and 2D grids (every pair of shapes for two points, every triple for triangles; further grid points cycle through the alphabet), stored as the
slices of one template array with the PDF axis at every position; for every such assignment all targets of a lattice through and around the
grid, the interpolators (quantile with different resolutions, moment morphing, nearest neighbour) combined with the extrapolators (moment
morphing, nearest neighbour), the estimators for energy dispersion, PSF (units deg, rad, arcmin) and the generic one, uniform and non-uniform
axes. In every state: shape, no nan, no negative entry, integral along the axis exactly 0 or 1, 1 where no used template is empty, 0 where
all are empty (an extrapolated PDF may be 0 if its mean is extrapolated to outside of the axis)."""
ASSUMPTIONS = ["which templates are used by a target is computed with exact geometry, only grids with unique triangulation",
               "results may or may not have a leading axis of length one"]

DIM1 = {"two": [0.0, 1.0], "three": [10.0, 20.0, 40.0], "shuffled": [1.0, 5.0, -2.0, 0.0]}
DIM2 = {"triangle": GRIDS_2D["triangle"], "quad": GRIDS_2D["quad"]}


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for est, bins in (("edisp", EDGES), ("psf", OFFSETS), ("generic", EDGES)):
        for b in bins:
            for it in ("quantile", "morph", "nn"):
                for g in DIM1:
                    if est == "generic" and g == "three" or it == "nn" and g == "two":
                        continue
                    js.append(dict(est=est, bins=b, inter=it, dim=1, grid=g, deep=deep))
                for g in DIM2:
                    if it == "nn" or g == "quad" and (it == "quantile" or est == "generic") and not deep:
                        continue
                    if est == "generic" and b not in ("uniform", "log", "giant", "small"):
                        continue
                    js.append(dict(est=est, bins=b, inter=it, dim=2, grid=g, deep=deep))
    return js


def alphabet(nb, dim, deep):
    s = shapes(nb)
    if dim == 1 or deep:
        return s
    return {k: s[k] for k in ("empty", "bin0", f"bin{nb - 1}", "bin1", "ramp", "gap", "pair")}


def run(job, rec):
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator,
        DiscretePDFNearestNeighborSearcher,
        EnergyDispersionEstimator,
        MomentMorphInterpolator,
        MomentMorphNearestSimplexExtrapolator,
        PSFTableEstimator,
        QuantileInterpolator,
    )

    solid = job["est"] == "psf"
    edges = (OFFSETS if solid else EDGES)[job["bins"]]
    nb = len(edges) - 1
    w = widths(edges, solid)
    alpha = alphabet(nb, job["dim"], job["deep"])
    names = list(alphabet(nb, job["dim"], job["deep"]))
    n_used = 2 if job["dim"] == 1 else 3
    combos = list(itertools.product(names, repeat=n_used))
    # factorise the number of combinations into two axes of different length
    a = next(k for k in range(int(len(combos) ** 0.5), 0, -1) if len(combos) % k == 0)
    if a * a == len(combos):
        combos = combos + [("flat" if "flat" in alpha else "ramp",) * n_used] * a
        a, b = a, a + 1
    else:
        b = len(combos) // a

    pts = [(x,) for x in DIM1[job["grid"]]] if job["dim"] == 1 else list(DIM2[job["grid"]])
    g = Grid(pts)
    n = len(pts)
    # the combination is assigned to the grid points, starting with the first in the sorted order
    rank = {p: i for i, p in enumerate(sorted(pts))}
    tmpl = [[c[rank[p]] if rank[p] < n_used else names[(k + rank[p]) % len(names)] for k, c in enumerate(combos)] for p in pts]
    flat = np.array([[pdf(alpha[s], w) for s in row] for row in tmpl])  # (n, combos, nb)
    empty = np.array([[s == "empty" for s in row] for row in tmpl])
    means = np.array([[np.nan if s == "empty" else mean(edges, alpha[s]) for s in row] for row in tmpl])

    tg = [(t,) for t in targets_1d([p[0] for p in pts])] if job["dim"] == 1 else targets_2d(pts, 6 if job["deep"] else 4)
    inter = {
        "quantile": [(QuantileInterpolator, None), (QuantileInterpolator, dict(quantile_resolution=5e-3))],
        "morph": [(MomentMorphInterpolator, None)],
        "nn": [(DiscretePDFNearestNeighborSearcher, None), (DiscretePDFNearestNeighborSearcher, dict(norm_ord=1))],
    }[job["inter"]]
    if not job["deep"] and job["dim"] == 2:
        inter = inter[:1]
    extra = [(MomentMorphNearestSimplexExtrapolator, None), (DiscretePDFNearestNeighborSearcher, None)]

    # arrangements: position of the PDF axis
    if job["est"] == "edisp":
        axes = [-2, 1, ("3d", 1), 3, 2, ("5d", 2), -1, -3, ("3d", 2), ("5d", 4)]
    elif job["est"] == "psf":
        axes = [-1, 1, ("3d", 1), 2, -2, ("5d", 2), 3, ("3d", 2), ("5d", 4)]
    else:
        axes = [None, "flat"]
    if job["inter"] == "quantile" and not job["deep"]:
        axes = axes[:3]

    for (icls, ikw), (ai, axis) in itertools.product(inter, enumerate(axes)):
        ecls, ekw = extra[ai % 2] if job["inter"] != "nn" else extra[(ai + 1) % 2]
        if axis == "flat":
            arr = flat
        else:
            ndim, axis = axis if isinstance(axis, tuple) else ("4d", axis)
            arr = flat.reshape(*{"3d": (n, a * b, nb), "4d": (n, a, b, nb), "5d": (n, a, 1, b, nb)}[ndim])
            if axis is not None:
                arr = np.swapaxes(arr, axis, -1).copy()
        kw = dict(interpolator_cls=icls, interpolator_kwargs=ikw, extrapolator_cls=ecls, extrapolator_kwargs=ekw)
        grid = np.array(pts)
        if job["est"] == "edisp":
            e = EnergyDispersionEstimator(grid, edges, arr, axis=axis, **kw) if axis != -2 else EnergyDispersionEstimator(grid, edges, arr, **kw)
        elif job["est"] == "psf":
            unit = ["deg", "rad", "arcmin"][ai % 3]
            q = arr / u.sr if ai % 2 else (arr / u.sr).to(1 / u.deg**2)
            e = PSFTableEstimator(grid, (edges * u.deg).to(unit), q, axis=axis, **kw) if axis != -1 else PSFTableEstimator(grid, (edges * u.deg).to(unit), q, **kw)
        else:
            e = DiscretePDFComponentEstimator(grid, edges, arr, **kw)
        for t in tg:
            with rec.case(job["est"], job["bins"], job["grid"], icls.__name__, ikw or "", ecls.__name__, "axis", axis, "target", t,
                          states=len(combos), steps=len(combos)):
                got = e(np.array([t]))
                if solid:
                    need(getattr(got, "unit", None) is not None and got.unit.is_equivalent(1 / u.sr), lambda: f"unit {getattr(got, 'unit', None)} instead of 1/sr")
                    got = got.to_value(1 / u.sr)
                need(not hasattr(got, "unit"), "unexpected unit")
                got = np.asarray(got)
                if got.ndim == arr.ndim and got.shape[0] == 1:
                    got = got[0]
                need(got.shape == arr.shape[1:], lambda: f"shape {got.shape}, templates have {arr.shape[1:]}")
                if axis not in (None, "flat"):
                    ax = axis if axis < 0 else axis - arr.ndim
                    got = np.swapaxes(got, ax, -1)
                got = got.reshape(len(combos), nb)
                need(not np.isnan(got).any(), lambda: f"nan for templates {combos[int(np.argwhere(np.isnan(got))[0][0])]}")
                need(np.isfinite(got).all(), "infinite values")
                need((got >= 0).all(), lambda: f"negative entries for templates {combos[int(np.argwhere(got < 0)[0][0])]}")
                total = (got * w).sum(axis=-1)
                inside = g.inside(t)
                cls = icls if inside else ecls
                if cls is DiscretePDFNearestNeighborSearcher:
                    o = (ikw or {}).get("norm_ord", 2) if inside else 2
                    d = [np.linalg.norm(np.array(p) - np.array(t), ord=o) for p in pts]
                    used = [int(np.argmin(d))]
                    if sorted(d)[1] - min(d) < 1e-12:
                        used = [i for i in range(n) if d[i] - min(d) < 1e-12]
                    cands = [{i: 1.0 for i in used}]
                    lo = hi = None
                else:
                    cands = g.cells(t) if inside else g.nearest(t)
                zero = total == 0
                one = np.abs(total - 1) < 1e-9
                need((zero | one).all(), lambda: f"integral {total[~(zero | one)][0]!r} for templates {combos[int(np.argwhere(~(zero | one))[0][0])]}")
                need(((got == 0).all(axis=-1) == zero).all(), "")
                used = sorted({i for c in cands for i, x in c.items() if x != 0})
                all_empty = empty[used].all(axis=0)
                need(zero[all_empty].all(), lambda: f"content for empty templates {combos[int(np.argwhere(all_empty & ~zero)[0][0])]}")
                filled = ~empty[used].any(axis=0)
                bad = filled & zero
                if not inside and cls is not DiscretePDFNearestNeighborSearcher:
                    m = np.array([sum(float(x) * means[i] for i, x in c.items() if x != 0) for c in cands])
                    out = ((m < edges[0] + 1e-9) | (m > edges[-1] - 1e-9)).any(axis=0)
                    bad &= ~out
                need(not bad.any(), lambda: f"empty result for non-empty templates {[row[int(np.argwhere(bad)[0][0])] for row in tmpl]} (used {used})")
                rec.outcome(np.round(got[5::7], 6).tolist())
