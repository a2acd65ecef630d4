import itertools
import warnings

import astropy.units as u
import numpy as np

from checks.t03 import templates
from mc.grid import GRIDS_1D, GRIDS_2D, GRIDS_3D, Grid, targets_1d, targets_2d
from mc.pdfs import EDGES, OFFSETS
from mc.util import fail, need, raises

SPACE = """(1) Every target of a fine lattice through and around every grid of a family (1D, 2D, 3D; all nodes, middles of all pairs of nodes, points
displaced from every border by 1e-6 to 1e6 of the grid size) for all estimator classes, with user-defined inter- and extrapolator subclasses
that record which of them was called with which target; with and without extrapolator. Reference: membership in the convex hull in rational
arithmetic; outside a warning and the extrapolator (or ValueError), inside exactly the interpolator and no warning.
(2) All single malformations of grid, target, templates, bins and algorithm classes, for every estimator class."""
ASSUMPTIONS = ["2D/3D targets outside of the grid by less than 1e-7 of its size are not judged (tolerance of the point location)"]


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for dim, gs in ((1, GRIDS_1D), (2, GRIDS_2D), (3, GRIDS_3D)):
        for g in gs:
            js.append(dict(kind="inside", dim=dim, grid=g, deep=deep))
    js += [dict(kind="malformed", est=e) for e in ("param", "aeff", "radmax", "generic", "edisp", "psf")]
    return js


def spies():
    from pyirf.interpolation import (
        DiscretePDFExtrapolator,
        DiscretePDFInterpolator,
        ParametrizedExtrapolator,
        ParametrizedInterpolator,
    )

    log = []

    def make(base, kind, meth):
        def call(self, target_point):
            log.append((kind, np.array(target_point, dtype=float).ravel().tolist(), np.shape(target_point)))
            v = self.params if hasattr(self, "params") else self.binned_pdf
            return np.array(v[:1], dtype=float)

        return type("Spy" + kind, (base,), {meth: call})

    return (
        log,
        (make(ParametrizedInterpolator, "inter", "interpolate"), make(ParametrizedExtrapolator, "extra", "extrapolate")),
        (make(DiscretePDFInterpolator, "inter", "interpolate"), make(DiscretePDFExtrapolator, "extra", "extrapolate")),
    )


def make(est, arr, data, icls, ecls, **over):
    from pyirf import interpolation as I

    kw = dict(interpolator_cls=icls, extrapolator_cls=ecls)
    kw = {k: v for k, v in kw.items() if v is not None}
    d = dict(grid_points=arr)
    if est == "param":
        d.update(params=data["params"])
        cls = I.ParametrizedComponentEstimator
    elif est == "aeff":
        d.update(effective_area=np.exp(data["params"]) * u.m**2)
        cls = I.EffectiveAreaEstimator
    elif est in ("radmax", "radmax fill"):
        d.update(rad_max=data["radmax"])
        cls = I.RadMaxEstimator
        if est == "radmax fill":
            d.update(fill_value=9.0)
    elif est == "generic":
        d.update(bin_edges=EDGES["log"], binned_pdf=np.swapaxes(data["edisp"], -1, -2).copy())
        cls = I.DiscretePDFComponentEstimator
    elif est == "edisp":
        d.update(migra_bins=EDGES["log"], energy_dispersion=data["edisp"])
        cls = I.EnergyDispersionEstimator
    elif est == "psf":
        d.update(source_offset_bins=OFFSETS["log"] * u.deg, psf=data["psf"])
        cls = I.PSFTableEstimator
    d.update(kw)
    d.update(over)
    return cls(**d)


def run(job, rec):
    if job["kind"] == "inside":
        dim = job["dim"]
        gs = {1: GRIDS_1D, 2: GRIDS_2D, 3: GRIDS_3D}[dim]
        pts = [(x,) for x in gs[job["grid"]]] if dim == 1 else list(gs[job["grid"]])
        arr = np.array(pts)
        lo, hi = arr.min(axis=0), arr.max(axis=0)
        size = float((hi - lo).max())
        steps = (0.0, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 10.0, 1e6)
        tg = {}  # target -> inside?
        if dim < 3:
            g = Grid(pts)
            for t in ([(t,) for t in targets_1d([p[0] for p in pts], 8)] if dim == 1 else targets_2d(pts, 24 if job["deep"] else 12)):
                tg[t] = g.inside(t)
        if dim == 1:
            for s in steps:
                for t in (lo[0] - s * size, hi[0] + s * size, lo[0] + s * size, hi[0] - s * size):
                    tg[(float(t),)] = bool(lo[0] <= t <= hi[0])
            for x in (lo[0], hi[0]):
                for t in (np.nextafter(x, np.inf), np.nextafter(x, -np.inf)):
                    tg[(float(t),)] = bool(lo[0] <= t <= hi[0])
        elif dim == 2:
            centre = arr.mean(axis=0)
            for i, j in g.hull:
                for k in range(0, 5):
                    p = arr[i] + (arr[j] - arr[i]) * k / 4
                    n = np.array([arr[j][1] - arr[i][1], arr[i][0] - arr[j][0]])
                    n = n / np.linalg.norm(n)
                    n = n if np.dot(n, p - centre) > 0 else -n
                    for s in steps[1:]:
                        tg[tuple(p + s * size * n)] = False
                    for s in (1e-6, 1e-3):
                        t = tuple(p - s * size * n)
                        tg[t] = g.inside(t)
        else:
            m = 5
            for k in itertools.product(range(-2, m + 3), repeat=3):
                t = tuple(float(x) for x in lo + (hi - lo) * np.array(k) / m)
                if job["grid"] == "cube":
                    tg[t] = all(0 <= x <= m for x in k)
                else:
                    if abs(sum(k) - m) == 0 and min(k) >= 0:
                        continue  # on the oblique side
                    tg[t] = min(k) >= 0 and sum(k) <= m
        if dim == 2:
            # not judged: outside by rounding only
            tg = {t: i for t, i in tg.items() if i or min(float(g.facet_distance(f, t)) for f in g.hull) > (1e-7 * size) ** 2}
        data = templates(len(pts))
        # permuted grids: the position of the points must not matter
        for est in ("param", "aeff", "radmax", "radmax fill", "generic", "edisp", "psf"):
            if est == "radmax fill" and dim == 3:
                continue
            log, pspy, dspy = spies()
            icls, ecls = pspy if est in ("param", "aeff", "radmax", "radmax fill") else dspy
            order = list(range(len(pts)))[::-1]
            grids = [("canonical", arr, data), ("reversed", arr[order], {k: v[order] for k, v in data.items()})]
            if np.all(arr == np.round(arr)):
                grids.append(("int", arr.astype(int), data))
            if dim == 1:
                grids.append(("flat", arr[:, 0], data))
            for gname, ga, gd in grids:
                both = make(est, ga, gd, icls, ecls)
                only = make(est, ga, gd, icls, None)
                for t, inside in tg.items():
                    with rec.case(est, job["grid"], gname, "target", t, "inside" if inside else "outside", steps=2):
                        for tp in (np.array([t]), np.array(t)):
                            del log[:]
                            with warnings.catch_warnings(record=True) as caught:
                                warnings.simplefilter("always")
                                both(tp)
                            kinds = [l[0] for l in log]
                            need(kinds == ["inter" if inside else "extra"], lambda: f"called {kinds}")
                            need(log[0][1] == list(t), lambda: f"called with target {log[0][1]}")
                            need(log[0][2] == (1, dim), lambda: f"called with target of shape {log[0][2]}")
                            w = [c for c in caught if "extrapol" in str(c.message).lower()]
                            need(bool(w) == (not inside), lambda: f"{len(w)} extrapolation warnings")
                        rec.outcome((est, inside))
                        del log[:]
                        if inside:
                            only(np.array([t]))
                            need([l[0] for l in log] == ["inter"], "not interpolated")
                        else:
                            raises((ValueError,), only, np.array([t]))
                            need(not log, "interpolator called outside of the grid")
    else:
        est = job["est"]
        pdf = est in ("generic", "edisp", "psf")
        log, pspy, dspy = spies()
        icls, ecls = dspy if pdf else pspy
        oi, oe = pspy if pdf else dspy
        EV = (TypeError, ValueError, u.UnitsError)
        for dim, pts in ((1, [(0.0,), (1.0,), (3.0,)]), (2, [(0.0, 0.0), (4.0, 0.0), (1.0, 3.0), (5.0, 4.0)])):
            arr = np.array(pts)
            data = templates(len(pts))
            n = len(pts)
            cut = {k: v[:-1] for k, v in data.items()}
            more = {k: np.concatenate([v, v[:1]]) for k, v in data.items()}
            for ic, ec in ((icls, ecls), (None, None)):
                b = lambda **k: make(est, k.pop("arr", arr), k.pop("data", data), k.pop("icls", ic), k.pop("ecls", ec), **k)  # noqa: E731
                with rec.case(est, dim, "well formed", ic and "custom"):
                    e = b()
                    e(arr[:1])
                bad = {
                    "grid is a list": lambda: b(arr=[list(p) for p in pts]),
                    "grid of objects": lambda: b(arr=arr.astype(object)),
                    "grid of strings": lambda: b(arr=arr.astype(str)),
                    "complex grid": lambda: b(arr=arr.astype(complex)),
                    "too few templates": lambda: b(data=cut),
                    "too many templates": lambda: b(data=more),
                    "too few points": lambda: b(arr=arr[:dim], data={k: v[:dim] for k, v in data.items()}),
                    "interpolator of the other family": lambda: b(icls=oi),
                    "extrapolator of the other family": lambda: b(ecls=oe),
                    "extrapolator as interpolator": lambda: b(icls=ecls),
                    "interpolator as extrapolator": lambda: b(ecls=icls),
                    "interpolator is no algorithm": lambda: b(icls=dict),
                    "extrapolator is no algorithm": lambda: b(ecls=dict),
                }
                if est == "param":
                    bad["params is a list"] = lambda: b(params=data["params"].tolist())
                if est == "radmax":
                    bad["rad_max is a list"] = lambda: b(rad_max=data["radmax"].tolist())
                    if dim == 2:
                        bad["fill value in 3D"] = lambda: b(arr=np.array(GRIDS_3D["cube"]), data=templates(8), fill_value=9.0)
                        bad["infer fill value in 3D"] = lambda: b(arr=np.array(GRIDS_3D["cube"]), data=templates(8), fill_value="infer")
                if est == "aeff":
                    bad["area without unit"] = lambda: b(effective_area=data["params"])
                    bad["area with wrong unit"] = lambda: b(effective_area=data["params"] * u.m)
                    bad["minimum without unit"] = lambda: b(min_effective_area=5.0)
                    bad["minimum with wrong unit"] = lambda: b(min_effective_area=5.0 * u.s)
                if est == "generic":
                    bad["bins are a list"] = lambda: b(bin_edges=EDGES["log"].tolist())
                    bad["templates are a list"] = lambda: b(binned_pdf=np.swapaxes(data["edisp"], -1, -2).tolist())
                    bad["missing edge"] = lambda: b(bin_edges=EDGES["log"][1:])
                    bad["additional edge"] = lambda: b(bin_edges=np.append(EDGES["log"], 99.0))
                if est == "edisp":
                    bad["bins are a list"] = lambda: b(migra_bins=EDGES["log"].tolist())
                    bad["missing edge"] = lambda: b(migra_bins=EDGES["log"][1:])
                    bad["additional edge"] = lambda: b(migra_bins=np.append(EDGES["log"], 99.0))
                    bad["wrong axis"] = lambda: b(axis=1)
                if est == "psf":
                    bad["bins without unit"] = lambda: b(source_offset_bins=OFFSETS["log"])
                    bad["bins with wrong unit"] = lambda: b(source_offset_bins=OFFSETS["log"] * u.m)
                    bad["psf without unit"] = lambda: b(psf=data["psf"].value)
                    bad["psf with wrong unit"] = lambda: b(psf=data["psf"].value / u.m)
                    bad["missing edge"] = lambda: b(source_offset_bins=OFFSETS["log"][1:] * u.deg)
                    bad["additional edge"] = lambda: b(source_offset_bins=np.append(OFFSETS["log"], 99.0) * u.deg)
                    bad["wrong axis"] = lambda: b(axis=1)
                for name, fn in bad.items():
                    if ic is None and ("wrong axis" in name):
                        pass
                    with rec.case(est, f"{dim}D", name, ic and "custom"):
                        raises(EV, fn)
                        rec.outcome(name)
                targets = {
                    "list": pts[0],
                    "nested list": [list(pts[0])],
                    "float": 0.5,
                    "None": None,
                    "two targets": arr[:2],
                    "all grid points": arr,
                    "too many coordinates": np.array([list(pts[0]) + [0.0]]),
                    "flat, too many coordinates": np.array(list(pts[0]) + [0.0]),
                    "no coordinates": np.zeros((1, 0)),
                }
                if dim == 2:
                    targets["too few coordinates"] = np.array([[0.0]])
                    targets["flat, too few coordinates"] = np.array([0.0])
                for ec2 in (ec, None):
                    e = b(ecls=ec2)
                    for name, t in targets.items():
                        with rec.case(est, f"{dim}D", "target", name, "extrapolator", ec2 and "custom"):
                            raises(EV, e, t)
                # still working after refusing targets
                with rec.case(est, dim, "after refused targets"):
                    e(arr[:1])
