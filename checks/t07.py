import bisect
import itertools
import math

import astropy.units as u
import numpy as np

from mc.grid import Grid
from mc.pdfs import pdf, shapes, widths
from mc.util import fail, need

SPACE = """All (shape, offset, displacement per unit of every grid coordinate) of a family, for which the displaced templates lie on the axis, on
1D and 2D grids (sorted, reversed, irregular, up to 25 points), and every integer target inside and outside of the grid where the displacement is a whole
number of bins and the shape still lies on the axis: energy dispersions with moment morphing (inter- and extrapolation) and quantile
interpolation, PSFs (probability per ring) with quantile interpolation. All cases of one target direction are slices of one estimator; each
slice is also estimated alone and next to other (also empty) slices and must not change. Further all (shape, offset, scale per grid coordinate)
on logarithmic axes, where the templates are one shape scaled by powers of the bin ratio proportionally to the grid coordinates. Further all
pairs of single-bin and other shapes with all common normalisations of a list and in single precision, and with the axis in other units: same result
as normalised templates. All pairs and triples of a PDF alphabet (gaps, outliers, 6 to 2000 bins) x targets x resolutions for quantile interpolation against a
reference which mixes the piecewise linear quantile functions of the templates; all pairs and triples of smooth PDFs x targets for
moment morphing: mean and width of the result."""
ASSUMPTIONS = ["displacements: equidistant axis, scaling: logarithmic axis; moment morphing is exact up to rounding, quantile interpolation within two quantiles per bin",
               "mean and width of PDFs at least four bins wide: within 0.6 bins and 12% inside, 20% (equidistant axes only) outside of the grid"]

NB = 32
SHAPES = {"box": [1, 1, 1], "spike": [1], "pair": [3, 1], "peak": [1, 3, 6, 4, 2], "ramp": [1, 2, 3, 4, 5, 6], "gap": [2, 0, 0, 5]}
GRIDS_1 = {"two": [0, 1], "four": [-1, 0, 2, 5], "rev": [4, 2, 1], "many": list(range(25))}
GRIDS_2 = {"triangle": [(0, 0), (4, 0), (1, 3)], "quad": [(0, 0), (4, 1), (5, 4), (1, 3)], "inner": [(0, 0), (6, 0), (7, 5), (1, 6), (3, 2)], "square": [(0, 0), (0, 2), (2, 0), (2, 2)]}


def psf_too_large(algo, axis, nb):
    return algo == "psf" and nb * (1 if axis == "unit" else 0.1) > 100


def jobs(tier):
    deep = tier == "thorough"
    js = [dict(kind="shift", dim=1, grid=g, axis=a, algo=al, deep=deep) for g in GRIDS_1 for a in ("dyadic", "tenth") for al in ("morph", "quantile", "psf")]
    js += [dict(kind="shift", dim=2, grid=g, axis=a, algo=al, deep=deep) for g in GRIDS_2 for a in ("dyadic", "tenth") for al in ("morph", "quantile", "psf")]
    js += [dict(kind="slices", dim=d, grid=g, algo=al) for d, g in ((1, "four"), (1, "rev"), (2, "inner"), (2, "quad")) for al in ("morph", "quantile", "psf", "psf morph")]
    js += [dict(kind="norm", dim=d, axis=a, algo=al) for d in (1, 2) for a in ("linear", "tenth", "log") for al in ("morph", "quantile", "psf", "psf morph")]
    js += [dict(kind="quantiles", dim=d, axis=a, algo=al, nb=nb, res=res) for d in (1, 2) for al, axes in (("edisp", ("unit", "tenth", "small", "negative")), ("psf", ("unit", "tenth")))
           for a in axes for nb, res in ((6, 1e-3), (7, 5e-3), (16, 1e-3), (16, 1e-2), (10, 2e-4), (100, 1e-3), (700, 1e-3), (2000, 1e-3))
           if not (psf_too_large(al, a, nb)) and (nb < 100 or d == 1 or deep)]
    js += [dict(kind="moments", dim=d, shape=sh, x0=x0, step=st, axis=a) for a in ("uniform", "growing", "jump") for d in (1, 2) for sh in ("gauss", "triangle", "skewed") for x0, st in ((0.0, 1.0), (-3.0, 0.1), (1e4, 250.0), (0.0, 1e-7))]
    for ratio in (2.0, 1.5):
        js += [dict(kind="scale", dim=d, grid=g, ratio=ratio, algo="morph", deep=deep) for d, gs in ((1, SCALES_1), (2, SCALES_2)) for g in gs]
    return js


# powers of the bin ratio at the grid points; in two dimensions the positions are given by (weight along x, weight along y)
SCALES_1 = {"01": [0, 1], "03": [0, 3], "012": [0, 1, 2], "310": [3, 1, 0], "unsorted": [2, 0, 3, 1], "far": [0, 5]}
SCALES_2 = {"triangle": [(0, 0), (1, 0), (0, 2)], "square": [(0, 0), (2, 0), (0, 2), (2, 2)], "obtuse": [(0, 0), (3, 0), (1, 2)], "inner": [(0, 0), (4, 0), (0, 4), (1, 1)]}


def scaling(job, rec):
    from pyirf.interpolation import EnergyDispersionEstimator, MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator

    r, dim = job["ratio"], job["dim"]
    nb = 14
    edges = r ** np.arange(-4, nb - 3)
    w = np.diff(edges)
    power = {r**k: k for k in range(-6, 12)}
    step = 1 if job["deep"] else 2
    for alpha, beta in ((0.0, 1.0), (3.0, 1.0), (0.0, 0.5), (1.0, -2.0)):
        # scale(x) = (sum(x) - alpha) / beta
        if dim == 1:
            ks = SCALES_1[job["grid"]]
            pts = [(alpha + beta * r**k,) for k in ks]
            targets = [(alpha + beta * r**k,) for k in range(-3, 9)]
        else:
            ks, pts = [], []
            for a, b in SCALES_2[job["grid"]]:
                # total scale is a power of the ratio, the split between the coordinates differs
                k = a + b
                share = b / k if k else 0.5
                ks.append(k)
                pts.append((alpha + beta * r**k * (1 - share), beta * r**k * share))
            targets = [(alpha + beta * r**k * (1 - f), beta * r**k * f) for k in range(-2, 6) for f in (0.0, 0.25, 0.4, 0.5, 0.9, 1.0)]
        g = Grid(pts)
        fam = []
        for name, s in SHAPES.items():
            for d0 in range(0, nb, step):
                rows = []
                for k in ks:
                    row = np.zeros(nb)
                    if d0 + k < 0 or d0 + k + len(s) > nb:
                        break
                    row[d0 + k : d0 + k + len(s)] = np.array(s) / sum(s)
                    rows.append(row / w)
                if len(rows) == len(ks):
                    fam.append((name, s, d0, rows))
        if not fam:
            continue
        e = EnergyDispersionEstimator(np.array(pts), edges, np.array([f[-1] for f in fam]).swapaxes(0, 1)[..., np.newaxis],
                                      interpolator_cls=MomentMorphInterpolator, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)
        for t in targets:
            scale = (sum(t) - alpha) / beta
            k = min(power.values(), key=lambda k: abs(r**k - scale))
            got = None
            for i, (name, s, d0, _) in enumerate(fam):
                if d0 + k < 0 or d0 + k + len(s) > nb:
                    continue
                want = np.zeros(nb)
                want[d0 + k : d0 + k + len(s)] = np.array(s) / sum(s)
                with rec.case("scaled shape", name, d0, "ratio", r, "scales at", list(zip(pts, ks)), "target", t):
                    if got is None:
                        got = np.asarray(e(np.array([t])))[0, ..., 0]
                    have = got[i] * w
                    need(np.abs(have - want).max() < 1e-9, lambda: f"bin contents {np.round(have, 5).tolist()} instead of {np.round(want, 5).tolist()}")
                    rec.outcome((name, d0, k, g.inside(t)))


def mixed(templates, weights):
    """bin contents of the distribution, whose quantiles are the weighted mean of the quantiles of the templates (bins of width one)"""
    n = len(templates[0])
    cums = []
    for p in templates:
        c = [0.0]
        for x in p:
            c.append(c[-1] + x)
        cums.append([x / c[-1] for x in c])

    def ppf(q, right):
        res = 0.0
        for c, w in zip(cums, weights):
            j = (bisect.bisect_right(c, q) if right else bisect.bisect_left(c, q)) - 1
            res += w * (j + min(1.0, (q - c[j]) / (c[j + 1] - c[j])))
        return res

    qs = sorted({q for c in cums for q in c})
    qs = [q for i, q in enumerate(qs) if i == 0 or q - qs[i - 1] > 1e-12]
    qs[-1] = 1.0
    segments = [(ppf(a, True), ppf(b, False), a, b) for a, b in zip(qs[:-1], qs[1:])]

    starts = [seg[0] for seg in segments]

    def cdf(x):
        i = bisect.bisect_right(starts, x) - 1
        if i < 0:
            return 0.0
        lo, hi, a, b = segments[i]
        return a + (b - a) * (x - lo) / (hi - lo) if x < hi else b

    c = [cdf(float(x)) for x in range(n + 1)]
    return [b - a for a, b in zip(c[:-1], c[1:])]


def quantiles(job, rec):
    """The quantiles of the result are the linearly interpolated quantiles of the templates."""
    from pyirf.interpolation import EnergyDispersionEstimator, PSFTableEstimator, QuantileInterpolator

    nb, psf, res = job["nb"], job["algo"] == "psf", job["res"]
    edges = {"unit": np.arange(nb + 1.0), "tenth": 0.1 * np.arange(nb + 1), "small": 3 + 1e-3 * np.arange(nb + 1), "negative": -2 + 0.25 * np.arange(nb + 1)}[job["axis"]]
    w = widths(edges, psf)
    if nb <= 20:
        al = {k: v for k, v in shapes(nb).items() if k != "empty"}
    else:
        x = (np.arange(nb) + 0.5) / nb
        al = {"flat": np.ones(nb), "gauss": np.exp(-0.5 * ((x - 0.3) / 0.08) ** 2), "narrow": np.exp(-0.5 * ((x - 0.7) / 0.004) ** 2), "steep": np.exp(-20 * x),
              "gap": np.where((x < 0.1) | (x > 0.8), 1.0, 0.0), "bin": np.eye(nb)[nb // 3], "outlier": np.full(nb, 1e-7) + np.eye(nb)[nb // 2], "comb": (np.arange(nb) % 5 == 0) * 1.0}
    if job["dim"] == 1:
        pts = [(0.0,), (2.0,)]
        targets = [((x,), (1 - x / 2, x / 2)) for x in (0.0, 0.125, 0.5, 0.7, 1.0, 1.5, 2.0)]
    else:
        pts = [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0)]
        targets = [((a * 2.0, b), (1 - a - b, a, b)) for a, b in ((0.0, 0.0), (0.25, 0.25), (0.5, 0.5), (0.1, 0.6), (0.6, 0.1), (0.0, 0.3))]
    names = list(al)
    fam = list(itertools.product(names, repeat=2))
    fam = [f + (names[(i * 5 + 2) % len(names)],) for i, f in enumerate(fam)]
    v = np.array([[pdf(al[f[i]], w) for f in fam] for i in range(len(pts))])
    kw = dict(interpolator_cls=QuantileInterpolator, interpolator_kwargs=dict(quantile_resolution=res), extrapolator_cls=None)
    if psf:
        e = PSFTableEstimator(np.array(pts), edges * u.deg, v[:, :, np.newaxis] / u.sr, **kw)
    else:
        e = EnergyDispersionEstimator(np.array(pts), edges, v[..., np.newaxis], **kw)
    for t, weights in targets:
        got = None
        for i, f in enumerate(fam):
            with rec.case("quantiles", job["algo"], job["axis"], nb, "bins, resolution", res, "templates", f[: len(pts)], "target", t):
                if got is None:
                    got = e(np.array([t]))
                    got = (np.asarray(got.to_value(1 / u.sr))[0, :, 0] if psf else np.asarray(got)[0, ..., 0]) * w
                want = np.array(mixed([list(map(float, al[x])) for x in f[: len(pts)]], weights))
                need(np.abs(got[i] - want).max() < 2.1 * res, lambda: f"bin contents {np.round(got[i], 5).tolist()} instead of {np.round(want, 5).tolist()}")
                # also the cumulative distribution
                need(np.abs(np.cumsum(got[i]) - np.cumsum(want)).max() < 1.1 * res, lambda: f"cumulative contents {np.cumsum(got[i]).tolist()} instead of {np.cumsum(want).tolist()}")
                rec.outcome((f[: len(pts)], t))


def moments(job, rec):
    """Means and widths of smooth, well resolved PDFs are interpolated linearly by moment morphing."""
    from pyirf.interpolation import EnergyDispersionEstimator, MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator

    nb, dim, x0, step = 64, job["dim"], job["x0"], job["step"]
    if job["axis"] == "uniform":
        rel = [float(i) for i in range(nb + 1)]
    elif job["axis"] == "growing":
        rel = [(1.04**i - 1) / (1.04**26 - 1) * 26 for i in range(nb + 1)]
    else:  # the bins are ten times wider above 20
        rel = [0.25 * i for i in range(80)] + [20 + 2.5 * i for i in range(41)]
    nb = len(rel) - 1
    mids = [(a + b) / 2 for a, b in zip(rel[:-1], rel[1:])]
    lens = [b - a for a, b in zip(rel[:-1], rel[1:])]
    edges = x0 + step * np.array(rel)

    def shape(m, s):
        if job["shape"] == "gauss":
            v = [math.exp(-0.5 * ((x - m) / s) ** 2) for x in mids]
        elif job["shape"] == "triangle":
            v = [max(0.0, 1 - abs(x - m) / (2.5 * s)) for x in mids]
        else:
            v = [math.exp(-0.5 * ((x - m) / (s if x < m else 2 * s)) ** 2) for x in mids]
        tot = sum(x * y for x, y in zip(v, lens))
        return [x / tot for x in v]

    def mom(p):
        c = [a * b for a, b in zip(p, lens)]
        m = sum(a * b for a, b in zip(c, mids)) / sum(c)
        return m, math.sqrt(sum(a * (b - m) ** 2 for a, b in zip(c, mids)) / sum(c))

    pars = [(22, 2), (24.3, 2.5), (30, 4), (35, 3), (28, 5)]
    if job["axis"] == "jump":
        pars = [(10, 2), (12, 3), (24, 8), (22, 10)]
    if job["axis"] == "growing":
        pars = [(18, 3), (26, 4), (24.3, 5), (30, 4.5)]
    fam = list(itertools.product(pars, repeat=2))
    if dim == 1:
        pts, targets = [(0.0,), (2.0,)], [((2 * a,), (1 - a, a)) for a in (0.1, 0.25, 0.5, 0.77, 0.9, 1.2, -0.2)]
    else:
        fam = [f + (pars[(2 * i + 1) % len(pars)],) for i, f in enumerate(fam)]
        pts = [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0)]
        targets = [((a * 2.0, b), (1 - a - b, a, b)) for a, b in ((0.25, 0.25), (0.5, 0.5), (0.1, 0.6), (0.6, 0.1), (0.0, 0.3), (0.6, 0.6), (-0.1, 0.3), (0.2, -0.1))]
    v = np.array([[np.array(shape(*f[i])) / step for f in fam] for i in range(len(pts))])
    e = EnergyDispersionEstimator(np.array(pts), edges, v[..., np.newaxis], interpolator_cls=MomentMorphInterpolator, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)
    for t, weights in targets:
        got = None
        for i, f in enumerate(fam):
            ms = [mom(shape(*x)) for x in f[: len(pts)]]
            mean, std = (sum(w * m[k] for w, m in zip(weights, ms)) for k in (0, 1))
            inside = min(weights) >= 0
            if std < (0 if inside else 2) or job["axis"] != "uniform" and not inside:
                continue
            with rec.case("moments of", job["shape"], "mean and width in bins", f[: len(pts)], job["axis"], "axis from", x0, "step", step, "target", t):
                if got is None:
                    got = np.asarray(e(np.array([t])))[0, ..., 0]
                have = mom((got[i] * step).tolist())
                need(abs(have[0] - mean) < 0.6, lambda: f"mean {have[0]} instead of {mean} bins")
                need(abs(have[1] / std - 1) < (0.12 if inside else 0.2), lambda: f"width {have[1]} instead of {std} bins")
                rec.outcome((f, t))


FACTORS = {"double": 1.0, "float32": None, "0.7": 0.7, "1/3": 1 / 3, "1e-3": 1e-3, "1-1e-9": 1 - 1e-9, "3e5": 3e5}


def normalisation(job, rec):
    """The result only depends on the shapes of the templates, not on their common normalisation or its rounding."""
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator,
        EnergyDispersionEstimator,
        MomentMorphInterpolator,
        MomentMorphNearestSimplexExtrapolator,
        PSFTableEstimator,
        QuantileInterpolator,
    )

    psf, quant = job["algo"].startswith("psf"), job["algo"] in ("quantile", "psf")
    nb = 20
    edges = {"linear": np.linspace(0.2, 5, nb + 1), "tenth": np.arange(nb + 1) * 0.1, "log": np.geomspace(0.05, 5, nb + 1)}[job["axis"]]
    w = widths(edges, psf)
    pts = [(0.0,), (1.0,)] if job["dim"] == 1 else [(0.0, 0.0), (1.0, 0.1), (0.2, 1.0)]
    al = {f"bin{i}": np.eye(nb)[i] for i in range(nb)}
    for i in (0, 3, 8, 13):
        for name, s in SHAPES.items():
            al[f"{name}{i}"] = np.array([0.0] * i + list(s) + [0.0] * (nb - i - len(s)))
    names = list(al)
    fam = [(a, b, names[(k * 7) % len(names)]) for k, (a, b) in enumerate(itertools.product(names, names)) if a.startswith("bin") or b.startswith("bin")]
    base = np.array([[pdf(al[f[i]], w) for f in fam] for i in range(len(pts))])
    kw = dict(interpolator_cls=QuantileInterpolator if quant else MomentMorphInterpolator, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)

    def make(v):
        if psf:
            return PSFTableEstimator(np.array(pts), edges * u.deg, v[:, :, np.newaxis] / u.sr, **kw)
        return EnergyDispersionEstimator(np.array(pts), edges, v[..., np.newaxis], **kw)

    def scaled(x):
        return DiscretePDFComponentEstimator(np.array(pts), edges * x, base / x, **kw)

    es = {name: make(base.astype(np.float32).astype(float) if f is None else base * f) for name, f in FACTORS.items()}
    if not psf:
        es.update({f"axis * {x}": scaled(x) for x in (1e-12, 1e-3, 3.0, 1e6, 1e12)})
    for t in [(0.3719,), (0.0117,), (0.8413,), (1.2357,), (-0.1571,)] if job["dim"] == 1 else [(0.3719, 0.2173), (0.0517, 0.1133), (0.8413, 0.1571), (1.2357, 0.1), (-0.0571, 0.4371)]:
        if quant and (min(t) < 0 or max(t) > 1):
            continue
        got = {}
        for name, e in es.items():
            with rec.case("normalisation", job["algo"], job["axis"], "target", t, "all"):
                r = e(np.array([t]))
                got[name] = (np.asarray(r.to_value(1 / u.sr))[0, :, 0] if psf else np.asarray(r).reshape(len(fam), nb)) * w * (float(name[7:]) if name.startswith("axis") else 1)
        for i, f in enumerate(fam):
            for name in es:
                if name == "double":
                    continue
                with rec.case("normalisation", job["algo"], job["axis"], "templates", f[: len(pts)], "times", name, "target", t):
                    a, b = got["double"][i], got[name][i]
                    need(np.abs(a - b).max() < (2e-3 if quant else 1e-4), lambda: f"bin contents {np.round(b, 5).tolist()} instead of {np.round(a, 5).tolist()}")
                    rec.outcome((name, f[0]))


def family(dim, deep):
    ks = range(-2, 3) if dim == 1 else range(-1, 3)
    for name, s in SHAPES.items():
        for k in itertools.product(ks, repeat=dim):
            for d0 in ((2, 9, 14, 20) if not deep else range(0, NB, 2)):
                yield name, s, d0, k


def place(s, d):
    if d < 0 or d + len(s) > NB:
        return None
    res = np.zeros(NB)
    res[d : d + len(s)] = s
    return res


def run(job, rec):
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator,
        EnergyDispersionEstimator,
        MomentMorphInterpolator,
        MomentMorphNearestSimplexExtrapolator,
        PSFTableEstimator,
        QuantileInterpolator,
    )

    if job["kind"] == "scale":
        return scaling(job, rec)
    if job["kind"] == "moments":
        return moments(job, rec)
    if job["kind"] == "quantiles":
        return quantiles(job, rec)
    if job["kind"] == "norm":
        return normalisation(job, rec)
    dim = job["dim"]
    pts = [(p,) for p in GRIDS_1[job["grid"]]] if dim == 1 else list(GRIDS_2[job["grid"]])
    arr = np.array(pts, dtype=float)
    g = Grid([tuple(float(x) for x in p) for p in pts])
    psf = job["algo"].startswith("psf")
    quant = job["algo"] in ("quantile", "psf")

    if job["kind"] == "shift":
        if job["axis"] == "dyadic":
            edges = np.arange(NB + 1) * 0.25 + (0 if psf else 0.5)
        else:
            edges = np.arange(NB + 1) * 0.1
        w = widths(edges, psf)
        fam = []
        for name, s, d0, k in family(dim, job["deep"]):
            rows = [place(s, d0 + sum(a * b for a, b in zip(k, p))) for p in pts]
            if all(r is not None for r in rows):
                fam.append(((name, d0, k), s, d0, k, [pdf(r, w) for r in rows]))
        t_arr = np.array([f[-1] for f in fam]).swapaxes(0, 1)  # (n, family, NB)
        kw = dict(interpolator_cls=QuantileInterpolator if quant else MomentMorphInterpolator, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)
        if psf:
            e = PSFTableEstimator(arr, edges * u.deg, t_arr[:, :, np.newaxis] / u.sr, **kw)
        else:
            e = EnergyDispersionEstimator(arr, edges, t_arr[..., np.newaxis], **kw)
        lo, hi = arr.min(axis=0).astype(int), arr.max(axis=0).astype(int)
        marg = 4
        axes = [range(a - marg, b + marg + 1) for a, b in zip(lo, hi)]
        half = [0.0, 0.5] if dim == 1 else [0.0]
        for t in itertools.product(*axes):
            for h in half:
                tt = tuple(float(x) + h for x in t)
                inside = g.inside(tt)
                if not inside and quant:
                    continue
                got = None
                for i, (descr, s, d0, k, _) in enumerate(fam):
                    shift = d0 + sum(a * b for a, b in zip(k, tt))
                    if shift != int(shift):
                        continue
                    want = place(s, int(shift))
                    if want is None:
                        continue
                    with rec.case(job["algo"], job["grid"], job["axis"], "shape/offset/displacement", descr, "target", tt):
                        if got is None:
                            got = e(np.array([tt]))
                            got = np.asarray(got.to_value(1 / u.sr))[0, :, 0] if psf else np.asarray(got)[0, ..., 0]
                        have = got[i] * w
                        want = want / want.sum()
                        tol = 2.1e-3 if quant else 1e-9
                        need(np.abs(have - want).max() < tol, lambda: f"bin contents {np.round(have, 5).tolist()} instead of {np.round(want, 5).tolist()}")
                        rec.outcome((descr[0], int(shift)))
    else:
        edges = np.arange(NB + 1) * 0.125
        w = widths(edges, psf)
        al = {k: v for k, v in shapes(NB).items() if not k.startswith("bin") or k in ("bin0", "bin7", "bin31")}
        names = list(al)
        combos = list(itertools.product(names, repeat=2))
        n = len(pts)
        kw = dict(interpolator_cls=QuantileInterpolator if quant else MomentMorphInterpolator, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)

        def make(idx, shape):
            v = np.array([[pdf(al[names[(names.index(combos[c][r % 2]) + r // 2) % len(names)]], w) for c in idx] for r in range(n)]).reshape((n,) + shape + (NB,))
            if psf:
                return PSFTableEstimator(arr, edges * u.deg, v / u.sr, **kw)
            return DiscretePDFComponentEstimator(arr, edges, v, **kw)

        allc = list(range(len(combos)))
        full = make(allc, (len(names), len(names)))
        tg = [tuple(np.array(p) + d) for p in pts for d in (0.0, 0.25, -0.5, 1.0)]
        singles = {}
        for t in tg:
            with rec.case("all slices", job["algo"], job["grid"], t):
                ref = np.asarray(full(np.array([t], dtype=float))).reshape(len(combos), NB)
            for c in allc:
                with rec.case("slice alone", job["algo"], job["grid"], combos[c], t):
                    if c not in singles:
                        singles[c] = make([c], ())
                    got = np.asarray(singles[c](np.array([t], dtype=float))).reshape(NB)
                    scale = np.abs(ref[c]).max() + 1e-30
                    need(np.abs(got - ref[c]).max() <= 1e-9 * scale, lambda: f"alone {got.tolist()}, next to other slices {ref[c].tolist()}")
            # pairs of slices in both orders
            for c in allc[:: 7]:
                for o in (names.index("empty") * len(names) + names.index("empty"), (c * 5 + 3) % len(combos)):
                    for idx, pos in (([c, o], 0), ([o, c], 1)):
                        key = tuple(idx)
                        if key not in singles:
                            singles[key] = make(idx, (2,))
                        with rec.case("two slices", job["algo"], job["grid"], [combos[i] for i in idx], t):
                            got = np.asarray(singles[key](np.array([t], dtype=float))).reshape(2, NB)[pos]
                            scale = np.abs(ref[c]).max() + 1e-30
                            need(np.abs(got - ref[c]).max() <= 1e-9 * scale, "changed by the other slice")
