import itertools
from fractions import Fraction as F

import astropy.units as u
import numpy as np

from checks.t03 import templates
from checks.t04 import values
from mc.grid import GRIDS_1D, GRIDS_2D, GRIDS_3D, exact, targets_1d, targets_2d
from mc.pdfs import EDGES, OFFSETS
from mc.util import eq, need, pure, raises, scramble

SPACE = """Every target of a lattice through and around every grid of a family (1D, 2D, 3D incl. all nodes and equidistant targets), norm orders
1, 2, 3, 4 and 10, value shapes of a family, for the bare searchers and for nearest neighbours as interpolator and/or extrapolator of every
estimator; after every estimate the returned array is overwritten and the estimate repeated. Reference: distances in rational arithmetic,
first grid point for ties. All invalid norm orders of a list."""
ASSUMPTIONS = ["estimators sort one dimensional grids, for ties the first one is the one with the lower coordinate",
               "results may or may not have a leading axis of length one"]


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for dim, gs in ((1, GRIDS_1D), (2, GRIDS_2D), (3, GRIDS_3D)):
        for g in gs:
            for rev in (False, True):
                js.append(dict(kind="bare", dim=dim, grid=g, rev=rev, deep=deep))
                js.append(dict(kind="est", dim=dim, grid=g, rev=rev, deep=deep))
    js.append(dict(kind="errors"))
    return js


def nearest(pts, t, order):
    """Index of the nearest point and whether it is a near tie that is no exact tie."""
    ex, tt = exact(pts), exact([t])[0]
    d = [sum(abs(a - b) ** order for a, b in zip(p, tt)) for p in ex]
    m = min(d)
    first = d.index(m)
    # for orders above two distances are rounded, exact ties might be resolved either way
    near = [i for i, x in enumerate(d) if x <= m * (1 + F(1, 10**9))]
    return first, near


def setup(job):
    gs = {1: GRIDS_1D, 2: GRIDS_2D, 3: GRIDS_3D}[job["dim"]]
    pts = [(x,) for x in gs[job["grid"]]] if job["dim"] == 1 else list(gs[job["grid"]])
    if job["rev"]:
        pts = pts[::-1]
    if job["dim"] == 1:
        tg = [(t,) for t in targets_1d([p[0] for p in pts], 8)]
    elif job["dim"] == 2:
        tg = targets_2d(pts, 10 if job["deep"] else 6)
    else:
        lo, hi = np.min(pts, axis=0), np.max(pts, axis=0)
        tg = [tuple(float(x) for x in lo + (hi - lo) * np.array(k) / 4) for k in itertools.product(range(-2, 7), repeat=3)]
    return pts, tg


def run(job, rec):
    from pyirf import interpolation as I

    if job["kind"] == "errors":
        arr = np.array([[0.0], [1.0], [3.0]])
        v = values(3, (2, 3))
        bins = np.linspace(0, 1, 4)
        data = templates(3)
        bad = [0, -1, -2, 1.5, 0.5, float("inf"), -float("inf"), float("nan"), "1", "fro", None, [1], (2,)]
        good = [1, 2, 3, 2.0, np.int64(1), np.float64(3), True]
        PN, DN = I.ParametrizedNearestNeighborSearcher, I.DiscretePDFNearestNeighborSearcher
        makers = {
            "base": lambda o: I.BaseNearestNeighborSearcher(arr, v, norm_ord=o),
            "param": lambda o: PN(arr, v, norm_ord=o),
            "pdf": lambda o: DN(arr, bins, v, norm_ord=o),
            "radmax": lambda o: I.RadMaxEstimator(arr, data["radmax"], interpolator_cls=PN, interpolator_kwargs=dict(norm_ord=o)),
            "aeff": lambda o: I.EffectiveAreaEstimator(arr, data["params"] * u.m**2, extrapolator_cls=PN, extrapolator_kwargs=dict(norm_ord=o)),
            "edisp": lambda o: I.EnergyDispersionEstimator(arr, EDGES["log"], data["edisp"], interpolator_cls=DN, interpolator_kwargs=dict(norm_ord=o)),
            "psf": lambda o: I.PSFTableEstimator(arr, OFFSETS["log"] * u.deg, data["psf"], extrapolator_cls=DN, extrapolator_kwargs=dict(norm_ord=o)),
        }
        for name, fn in makers.items():
            for o in bad:
                with rec.case("invalid norm order", name, repr(o)):
                    raises((ValueError,), fn, o)
                    rec.outcome((name, repr(o)))
            for o in good:
                with rec.case("valid norm order", name, repr(o)):
                    fn(o)
        return

    pts, tg = setup(job)
    n = len(pts)
    arr = np.array(pts)
    orders = [1, 2, 3, 10] + ([4] if job["deep"] else [])
    if job["kind"] == "bare":
        for shape in ((1,), (3,), (2, 3), (3, 1, 2)):
            v = values(n, shape)
            for o in orders:
                objs = [("base", I.BaseNearestNeighborSearcher(arr, v, norm_ord=o)),
                        ("param", I.ParametrizedNearestNeighborSearcher(arr, v, norm_ord=o)),
                        ("pdf", I.DiscretePDFNearestNeighborSearcher(arr, np.arange(shape[-1] + 1.0), v, norm_ord=o))]
                if o == 2:
                    objs += [("default", I.BaseNearestNeighborSearcher(arr, v)), ("param default", I.ParametrizedNearestNeighborSearcher(arr, v))]
                for t in tg:
                    first, near = nearest(pts, t, o)
                    for name, s in objs:
                        with rec.case("searcher", name, job["grid"], "reversed" if job["rev"] else "", shape, "norm", o, t):
                            got = None
                            for tp in (np.array([t]), np.array(t)):
                                for fn in (s, s.interpolate):
                                    r = fn(tp)
                                    res = np.asarray(r).reshape(shape)
                                    ok = [i for i in ([first] if o <= 2 and job["dim"] == 1 or o == 1 else near) if np.array_equal(res, v[i])]
                                    need(ok, lambda: f"returned values of none of the nearest points {[pts[i] for i in near]}: {res.tolist()}")
                                    if len(near) == 1:
                                        need(ok[0] == first, "not the nearest")
                                    scramble(r)
                                    got = ok[0]
                            need(np.array_equal(v, values(n, shape)), "templates were modified through the result")
                            rec.outcome((job["grid"], got))
    else:
        data = templates(n)
        PN, DN = I.ParametrizedNearestNeighborSearcher, I.DiscretePDFNearestNeighborSearcher
        a_ps = np.exp(data["params"])
        for o in orders:
            kw = dict(interpolator_kwargs=dict(norm_ord=o), extrapolator_kwargs=dict(norm_ord=o))
            es = [
                ("param", I.ParametrizedComponentEstimator(arr, data["params"], interpolator_cls=PN, extrapolator_cls=PN, **kw), data["params"]),
                ("aeff", I.EffectiveAreaEstimator(arr, a_ps * u.m**2, interpolator_cls=PN, extrapolator_cls=PN, **kw), a_ps),
                ("radmax", I.RadMaxEstimator(arr, data["radmax"], interpolator_cls=PN, extrapolator_cls=PN, **kw), data["radmax"]),
                ("edisp", I.EnergyDispersionEstimator(arr, EDGES["log"], data["edisp"], interpolator_cls=DN, extrapolator_cls=DN, **kw), data["edisp"]),
                ("psf", I.PSFTableEstimator(arr, OFFSETS["log"] * u.deg, data["psf"], interpolator_cls=DN, extrapolator_cls=DN, **kw), data["psf"].to_value("1/sr")),
            ]
            if job["dim"] < 3:
                es.append(("radmax fill", I.RadMaxEstimator(arr, data["radmax"], fill_value=9.0, interpolator_cls=PN, extrapolator_cls=PN, **kw), data["radmax"]))
            if job["dim"] < 3:
                es.append(("edisp only extrapolation", I.EnergyDispersionEstimator(arr, EDGES["log"], data["edisp"], interpolator_cls=I.MomentMorphInterpolator, extrapolator_cls=DN,
                                                                                   extrapolator_kwargs=dict(norm_ord=o)), data["edisp"]))
            es.append(("param only extrapolation", I.ParametrizedComponentEstimator(arr, data["params"], extrapolator_cls=PN, extrapolator_kwargs=dict(norm_ord=o)), data["params"]))
            inside = None
            for t in tg:
                first, near = nearest(pts, t, o)
                for name, e, ref in es:
                    if "only" in name:
                        if inside is None:
                            from mc.grid import Grid

                            inside = Grid(pts).inside if job["dim"] < 3 else (lambda t: True)
                        if inside(t):
                            continue
                    with rec.case("estimator", name, job["grid"], "reversed" if job["rev"] else "", "norm", o, t):
                        for rep in range(2):
                            r = e(np.array([t]))
                            if name == "aeff":
                                got = r.to_value("m2")
                            elif name == "psf":
                                got = r.to_value("1/sr")
                            else:
                                got = np.asarray(r)
                            need(got.size == ref[0].size and got.shape[-ref[0].ndim:] == ref[0].shape, lambda: f"shape {got.shape}")
                            got = got.reshape(ref[0].shape)
                            ok = [i for i in near if np.allclose(got, ref[i], rtol=1e-12 if name in ("aeff", "psf") else 0, atol=0)]
                            need(ok, lambda: f"values of none of the nearest points {[pts[i] for i in near]}")
                            if job["dim"] == 1 and o <= 2 and len(near) > 1:
                                need(min(near, key=lambda i: pts[i]) in ok, "not the first of the nearest points")
                            if job["dim"] == 2 and o == 1:
                                need(first in ok, "not the first of the nearest points")
                            scramble(r)
