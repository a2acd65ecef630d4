import itertools

import astropy.units as u
import numpy as np

from checks.t04 import SHAPES, values
from mc.grid import GRIDS_1D, GRIDS_2D, GRIDS_3D
from mc.pdfs import EDGES, OFFSETS, pdf, shapes, widths
from mc.util import eq, fail, need

SPACE = """Every grid point of every grid of a family (1D, 2D, 3D; 2 to 12 points, non-uniform, regular, obtuse), with the grid points given in
canonical, reversed and rotated order, as target of: parametrised, effective area and rad max estimators (all parameter shapes of a family,
areas below, at and above min_effective_area, several units), nearest neighbour inter- and extrapolation, moment morphing and quantile
interpolation of energy dispersions and PSFs, where every pair of templates of a PDF alphabet (incl. empty ones, single bins and separated
bins) occurs on neighbouring grid points, for uniform and non-uniform axes. Compared with the stored template."""
ASSUMPTIONS = ["quantile interpolation: the contents of each bin within two quantiles",
               "results may or may not have a leading axis of length one"]


def jobs(tier):
    js = []
    for dim, gs in ((1, GRIDS_1D), (2, GRIDS_2D), (3, GRIDS_3D)):
        for g in gs:
            js.append(dict(kind="param", dim=dim, grid=g))
            js.append(dict(kind="aeff", dim=dim, grid=g))
            if dim < 3:
                for b in EDGES:
                    js.append(dict(kind="pdf", dim=dim, grid=g, bins=b, solid=False, deep=tier == "thorough"))
                for b in OFFSETS:
                    js.append(dict(kind="pdf", dim=dim, grid=g, bins=b, solid=True, deep=tier == "thorough"))
    return js


def point_orders(pts):
    yield "canonical", list(pts)
    yield "reversed", list(pts)[::-1]
    if len(pts) > 2:
        yield "rotated", list(pts)[1:] + list(pts)[:1]
        yield "evens", list(pts)[::2] + list(pts)[1::2]


def drop(got, shape, what):
    got = np.asarray(got)
    if got.ndim == len(shape) + 1 and got.shape[0] == 1:
        got = got[0]
    need(got.shape == tuple(shape), lambda: f"{what}: shape {got.shape}, expected {tuple(shape)}")
    return got


def run(job, rec):
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator,
        DiscretePDFNearestNeighborSearcher,
        EffectiveAreaEstimator,
        EnergyDispersionEstimator,
        MomentMorphInterpolator,
        MomentMorphNearestSimplexExtrapolator,
        ParametrizedComponentEstimator,
        ParametrizedNearestNeighborSearcher,
        ParametrizedNearestSimplexExtrapolator,
        ParametrizedVisibleEdgesExtrapolator,
        PSFTableEstimator,
        QuantileInterpolator,
        RadMaxEstimator,
    )

    gs = {1: GRIDS_1D, 2: GRIDS_2D, 3: GRIDS_3D}[job["dim"]]
    base = [(x,) for x in gs[job["grid"]]] if job["dim"] == 1 else list(gs[job["grid"]])
    NN = ParametrizedNearestNeighborSearcher
    extras = [None] if job["dim"] == 3 else [None, ParametrizedNearestSimplexExtrapolator, ParametrizedVisibleEdgesExtrapolator]

    if job["kind"] == "param":
        for oname, pts in point_orders(base):
            arr = np.array(pts)
            for shape in SHAPES:
                v = values(len(pts), shape) + 4
                es = [("param", ParametrizedComponentEstimator(arr, v, extrapolator_cls=x)) for x in extras]
                es.append(("param nn", ParametrizedComponentEstimator(arr, v, interpolator_cls=NN, extrapolator_cls=NN))) if shape else None
                if shape:
                    es.append(("radmax", RadMaxEstimator(arr, v, extrapolator_cls=extras[-1])))
                    es.append(("radmax nn", RadMaxEstimator(arr, v, interpolator_cls=NN)))
                if job["dim"] == 1:
                    es.append(("flat grid", ParametrizedComponentEstimator(arr[:, 0], v)))
                for i, p in enumerate(pts):
                    for name, e in es:
                        with rec.case(name, job["grid"], oname, shape, p):
                            got = e(np.array([p]))
                            eq(drop(got, shape or (1,), name), v[i].reshape(shape or (1,)), what=f"{name} at grid point {p}", rtol=0 if "nn" in name else 1e-12,
                               atol=0 if "nn" in name else 1e-12 * 10)
                            rec.outcome(np.round(np.ravel(got)[:2], 4).tolist())
    elif job["kind"] == "aeff":
        for oname, pts in point_orders(base):
            arr = np.array(pts)
            for shape in ((3,), (2, 3), (3, 1)):
                for floor, fu in ((1.0, "m2"), (30.0, "m2"), (1e-4, "km2"), (1e-9, "m2"), (1e7, "m2")):
                    fl = (floor * u.Unit(fu)).to_value("m2")
                    a = np.exp(values(len(pts), shape)) * 10 * fl
                    # below, at and just above the floor and exactly zero at different points
                    spec = [0.0, fl / 2, fl, fl * 1.001, fl * 3]
                    for i in range(len(pts)):
                        a[i].flat[i % a[i].size] = spec[i % len(spec)]
                    for unit in ("m2", "cm2", "km2"):
                        q = (a * u.m**2).to(unit)
                        kw = {} if floor == 1.0 else dict(min_effective_area=u.Quantity(floor, fu))
                        for icls in (None, NN):
                            e = EffectiveAreaEstimator(arr, q, **({} if icls is None else dict(interpolator_cls=icls)), **kw)
                            for i, p in enumerate(pts):
                                with rec.case("aeff", job["grid"], oname, shape, unit, "floor", fl, icls and icls.__name__, p):
                                    got = e(np.array([p]))
                                    got = drop(got.to_value("m2"), shape, "aeff")
                                    at_floor = np.abs(a[i] / fl - 1) < 1e-6
                                    want = np.where((a[i] <= fl) | at_floor, 0, a[i])
                                    eq(got, want, what=f"effective area at grid point {p}", rtol=1e-9)
    else:
        edges = (OFFSETS if job["solid"] else EDGES)[job["bins"]]
        w = widths(edges, job["solid"])
        nb = len(w)
        alpha = shapes(nb)
        names = list(alpha)
        combos = list(itertools.product(names, repeat=2)) + [("flat", "ramp")] * len(names)
        a, b = len(names), len(names) + 1
        for oname, pts in point_orders(base):
            if not job["deep"] and oname in ("evens",):
                continue
            arr = np.array(pts)
            rank = {p: i for i, p in enumerate(sorted(pts))}
            tmpl = [[names[(names.index(c[rank[p] % 2]) + (rank[p] // 2) * (1 + k)) % len(names)] if rank[p] >= 2 else c[rank[p]] for k, c in enumerate(combos)] for p in pts]
            flat = np.array([[pdf(alpha[s], w) for s in row] for row in tmpl])
            v = np.swapaxes(flat.reshape(len(pts), a, b, nb), -2, -1).copy() if not job["solid"] else flat.reshape(len(pts), a, b, nb)
            algos = [("morph", MomentMorphInterpolator, None), ("nn", DiscretePDFNearestNeighborSearcher, None)]
            if oname == "canonical" or job["deep"]:
                algos.append(("quantile", QuantileInterpolator, None))
                if job["dim"] == 1:
                    algos.append(("quantile", QuantileInterpolator, dict(quantile_resolution=2e-4)))
            for name, icls, ikw in algos:
                kw = dict(interpolator_cls=icls, interpolator_kwargs=ikw, extrapolator_cls=MomentMorphNearestSimplexExtrapolator if job["deep"] else None)
                if job["solid"]:
                    e = PSFTableEstimator(arr, edges * u.deg, v / u.sr, **kw)
                else:
                    e = EnergyDispersionEstimator(arr, edges, v, **kw)
                for i, p in enumerate(pts):
                    with rec.case(name, ikw or "", "psf" if job["solid"] else "edisp", job["bins"], job["grid"], oname, "grid point", p, states=len(combos), steps=len(combos)):
                        got = e(np.array([p]))
                        if job["solid"]:
                            got = got.to_value(1 / u.sr)
                        got = drop(got, v.shape[1:], name)
                        if name == "nn":
                            eq(got, v[i], what="template", rtol=1e-14)
                            continue
                        if not job["solid"]:
                            got = np.swapaxes(got, -2, -1)
                        have, want = got.reshape(len(combos), nb) * w, flat[i] * w
                        diff = np.abs(have - want)
                        if name == "morph":
                            tol = np.full(len(combos), 1e-9)
                        else:
                            res = (ikw or {}).get("quantile_resolution", 1e-3)
                            tol = np.full(len(combos), 2.1 * res)
                        bad = diff.max(axis=-1) > tol
                        if bad.any():
                            k = int(np.argwhere(bad)[0][0])
                            fail(f"{name} at grid point {p}: bin contents {(got.reshape(len(combos), nb)[k] * w).tolist()}, template {tmpl[i][k]} {(flat[i][k] * w).tolist()}, others {[r[k] for r in tmpl]}")
                        emp = np.array([s == "empty" for s in tmpl[i]])
                        tot = (got.reshape(len(combos), nb) * w).sum(-1)
                        need(np.allclose(tot, ~emp, rtol=0, atol=1e-9), "template integral not reproduced")
