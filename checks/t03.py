import itertools

import astropy.units as u
import numpy as np

from checks.t04 import values
from mc.grid import GRIDS_1D, GRIDS_2D, GRIDS_3D, Grid, targets_1d, targets_2d
from mc.pdfs import EDGES, OFFSETS, pdf, shapes, widths
from mc.util import need

SPACE = """For every grid of a family (1D, 2D with unique triangulation, 3D) all permutations of the grid points (up to 5 points; for larger
grids all permutations generated by transpositions of pairs, rotations and the reversal, for 34 points a list of those), every estimator (parametrised, effective area, rad
max with and without fill value, energy dispersion and PSF with every interpolator and extrapolator, nearest neighbours) and every target of a
lattice through and around the grid: the result has to equal the one for the canonical order. 1D grids are passed as (n,) and (n, 1)."""
ASSUMPTIONS = ["targets at which the result is not uniquely defined (ties of the nearest neighbour or nearest border facet) are excluded"]

CONFIGS = ["param", "param ns", "param ve", "param nn", "aeff", "aeff nn", "radmax", "radmax fill", "radmax infer", "edisp morph", "edisp quantile", "psf morph", "psf quantile", "psf nn"]


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for dim, gs in ((1, GRIDS_1D), (2, {k: v for k, v in GRIDS_2D.items() if k not in ("square", "regular", "rect")}), (3, GRIDS_3D)):
        for g in gs:
            cs = CONFIGS if dim < 3 else ["param", "param nn", "aeff", "radmax"]
            if len(gs[g]) > 5 and not deep:
                js += [dict(dim=dim, grid=g, configs=[c], deep=deep) for c in cs]
            else:
                js += [dict(dim=dim, grid=g, configs=cs[i::4], deep=deep) for i in range(4)]
    return js


def perms(n, deep):
    if n <= (6 if deep else 5):
        yield from itertools.permutations(range(n))
        return
    seen = set()
    base = list(range(n))
    for r in range(n) if n < 15 else (0, 1, n // 2, n - 1):
        rot = base[r:] + base[:r]
        for p in (rot, rot[::-1]):
            if tuple(p) not in seen:
                seen.add(tuple(p))
                yield tuple(p)
    for i, j in itertools.combinations(range(n), 2) if n < 15 else [(i, i + 1) for i in range(0, n - 1, 3)] + [(0, n - 1), (3, n // 2)]:
        p = base[:]
        p[i], p[j] = p[j], p[i]
        if tuple(p) not in seen:
            seen.add(tuple(p))
            yield tuple(p)


def build(config, arr, data):
    from pyirf import interpolation as I

    NS, VE, MS = I.ParametrizedNearestSimplexExtrapolator, I.ParametrizedVisibleEdgesExtrapolator, I.MomentMorphNearestSimplexExtrapolator
    PN, DN = I.ParametrizedNearestNeighborSearcher, I.DiscretePDFNearestNeighborSearcher
    ndim = 1 if arr.ndim == 1 else arr.shape[1]
    ns = NS if ndim < 3 else None
    if config == "param":
        return I.ParametrizedComponentEstimator(arr, data["params"], extrapolator_cls=PN)
    if config == "param ns":
        return I.ParametrizedComponentEstimator(arr, data["params"], extrapolator_cls=NS)
    if config == "param ve":
        return I.ParametrizedComponentEstimator(arr, data["params"], extrapolator_cls=VE)
    if config == "param nn":
        return I.ParametrizedComponentEstimator(arr, data["params"], interpolator_cls=PN, extrapolator_cls=PN)
    if config == "aeff":
        return I.EffectiveAreaEstimator(arr, np.exp(data["params"]) * u.m**2, extrapolator_cls=ns)
    if config == "aeff nn":
        return I.EffectiveAreaEstimator(arr, np.exp(data["params"]) * u.m**2, interpolator_cls=PN, extrapolator_cls=NS)
    if config == "radmax":
        return I.RadMaxEstimator(arr, data["radmax"], extrapolator_cls=ns)
    if config == "radmax fill":
        return I.RadMaxEstimator(arr, data["radmax"], fill_value=9.0, extrapolator_cls=ns)
    if config == "radmax infer":
        return I.RadMaxEstimator(arr, data["radmax"], fill_value="infer", extrapolator_cls=VE)
    kind, algo = config.split()
    icls = dict(morph=I.MomentMorphInterpolator, quantile=I.QuantileInterpolator, nn=DN)[algo]
    ecls = dict(morph=MS, quantile=MS, nn=DN)[algo]
    if kind == "edisp":
        return I.EnergyDispersionEstimator(arr, EDGES["log"], data["edisp"], interpolator_cls=icls, extrapolator_cls=ecls)
    return I.PSFTableEstimator(arr, OFFSETS["log"] * u.deg, data["psf"], interpolator_cls=icls, extrapolator_cls=ecls)


def templates(n):
    res = {"params": values(n, (2, 3)) + 4}
    rm = np.abs(values(n, (2, 4))) + 0.5
    rm[0, 0, 1] = rm[n - 1, 1, 2] = rm[n // 2, 0, 3] = 9.0
    rm[:, 1, 3] = 9.0
    res["radmax"] = rm
    for key, edges, solid in (("edisp", EDGES["log"], False), ("psf", OFFSETS["log"], True)):
        w = widths(edges, solid)
        al = [s for k, s in shapes(len(w)).items() if k != "empty"]
        arr = np.array([[[pdf(al[(i * 3 + a * 2 + b) % len(al)] + (0.1 * i), w) for b in range(3)] for a in range(2)] for i in range(n)])
        arr[0, 1, 2] = 0
        res[key] = np.swapaxes(arr, -2, -1).copy() if not solid else arr / u.sr
    return res


def run(job, rec):
    gs = {1: GRIDS_1D, 2: GRIDS_2D, 3: GRIDS_3D}[job["dim"]]
    pts = [(x,) for x in gs[job["grid"]]] if job["dim"] == 1 else list(gs[job["grid"]])
    n = len(pts)
    arr = np.array(pts)
    data = templates(n)
    if job["dim"] == 3:
        lo, hi = arr.min(axis=0), arr.max(axis=0)
        tg = [tuple(lo + (hi - lo) * np.array(k) / 4) for k in itertools.product(range(5), repeat=3)]
        if job["grid"] == "tetra":
            tg = [t for t in tg if t[0] / 2 + t[1] / 4 + t[2] <= 1]
        else:
            tg = [p for p in pts]
    else:
        g = Grid(pts)
        tg = [(t,) for t in targets_1d([p[0] for p in pts])] if job["dim"] == 1 else targets_2d(pts, 8 if job["deep"] else 4)

    def unique(config, t):
        d = sorted(np.linalg.norm(arr - np.array(t), axis=1))
        tie = d[1] - d[0] < 1e-9
        if job["dim"] == 3:
            return not ("nn" in config and tie)
        inside = g.inside(t)
        if inside:
            if "nn" in config and tie:
                return False
            # on the common side of two cells the fill value handling depends on the chosen cell
            return not (config in ("radmax fill", "radmax infer") and len(g.cells(t)) > 1)
        if config in ("param", "param nn", "psf nn"):
            return not tie
        if config in ("param ve",):
            return True
        return len(g.nearest(t, 1e-6)) == 1

    for config in job["configs"]:
        ref = build(config, arr, data)
        results = {}
        for t in tg:
            if unique(config, t):
                try:
                    results[t] = np.asarray(ref(np.array([t])))
                except Exception as e:  # noqa: BLE001
                    with rec.case(config, job["grid"], "canonical order", t):
                        raise e
        for p in perms(n, job["deep"]):
            sub = {k: v[list(p)] for k, v in data.items()}
            forms = [arr[list(p)]] + ([arr[list(p)][:, 0]] if job["dim"] == 1 else [])
            for form in forms:
                with rec.case(config, job["grid"], "order", p, "grid shape", form.shape):
                    e = build(config, form, sub)
                    rec.step(len(results))
                    rec.trace(len(results))
                    for t, want in results.items():
                        got = np.asarray(e(np.array([t])))
                        need(got.shape == want.shape, lambda: f"shape {got.shape} vs {want.shape} at {t}")
                        # extrapolated areas might overflow
                        far = ~np.isfinite(want)
                        need(np.array_equal(got[far], want[far], equal_nan=True), lambda: f"target {t}: {got.ravel()[:8].tolist()} instead of {want.ravel()[:8].tolist()} in canonical order")
                        got, want = np.where(far, 0, got), np.where(far, 0, want)
                        scale = np.max(np.abs(want)) + 1e-30
                        tol = 1e-9 if "quantile" not in config else 1e-6
                        need(np.all(np.abs(got - want) <= tol * scale), lambda: f"target {t}: {got.ravel()[:8].tolist()} instead of {want.ravel()[:8].tolist()} in canonical order")
                    rec.outcome((config, p))
