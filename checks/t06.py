import itertools

import numpy as np

from mc.grid import GRIDS_1D, GRIDS_2D, Grid, targets_1d, targets_2d
from mc.util import need, pure

SPACE = """All assignments of {two different cuts, fill value, zero} (for up to 4 grid points; {cut, other cut, fill} for more) to the grid points
of 1D and 2D grids, stored as entries of one rad max array of several shapes; for every such assignment every target of a lattice through and
around the grid, grid points in canonical, reversed and rotated order, fill value given, inferred, given below the largest stored value (also next
to exact ones), given but stored nowhere, or not handled; every assignment also as a rad max of a single entry; interpolation and extrapolation by griddata / nearest simplex / visible edges / nearest neighbours in all combinations. Reference:
cells, neighbours and weights in rational arithmetic and the documented fill value rules."""
ASSUMPTIONS = ["at targets shared by several cells the rules may be applied to any of them (all entries the same cell)",
               "fill values are positive; at most two grid dimensions"]

FILL = 0.75
GRIDS = {"two": [(x,) for x in GRIDS_1D["two"]], "three": [(x,) for x in GRIDS_1D["three"]], "neg": [(x,) for x in GRIDS_1D["neg"]], "minus": [(x,) for x in GRIDS_1D["minus"]],
         "triangle": GRIDS_2D["triangle"], "quad": GRIDS_2D["quad"], "inner": GRIDS_2D["inner"], "wide": GRIDS_2D["wide"],
         "square": GRIDS_2D["square"], "regular": GRIDS_2D["regular"]}


def jobs(tier):
    deep = tier == "thorough"
    return [dict(grid=g, inter=i, extra=e, deep=deep) for g in GRIDS for i in ("linear", "nn") for e in ("ns", "ve", "nn", "none")
            if not (i == "nn" and e in ("ve", "none")) and not (g in ("square", "regular", "wide") and i == "nn" and not deep)]


def nearest(pts, t):
    d = [sum((float(a) - float(b)) ** 2 for a, b in zip(p, t)) for p in pts]
    m = min(d)
    return [{i: 1.0} for i, x in enumerate(d) if x <= m * (1 + 1e-12)]


def single(job, rec, make, modes, pos, ecls, n):
    """every assignment alone: the result of an entry does not depend on the other entries of the table"""
    dim = 1 if job["grid"] in ("two", "three", "neg") else 2
    ts = [t for i, t in enumerate(pos) if i % (3 if dim == 1 else 7) == 0 and (pos[t][0] or ecls is not None)]
    # the inferred value is the largest one of the complete table, wherever it is stored
    for i in range(n):
        for w in (1, 3):
            vals = np.array([[0.25 + 0.25 * ((j + k) % 2) for k in range(w)] for j in range(n)])
            vals[i, -1] = FILL
            given, infer = make(vals, dict(fill_value=FILL)), make(vals, dict(fill_value="infer"))
            for t in ts:
                with rec.case("rad max", job["grid"], "inferred fill value stored once", job["inter"], job["extra"], "at grid point", i, "values", vals.tolist(), "target", t):
                    a, b = np.asarray(given(np.array([t]))), np.asarray(infer(np.array([t])))
                    need(a.shape == b.shape and np.array_equal(a, b), lambda: f"inferred {b.tolist()}, given {a.tolist()}")
    for mode, kw, vals, fill in modes:
        if mode == "infer":
            continue
        m = vals.shape[1]
        full = make(vals, kw)
        ref = {t: np.asarray(full(np.array([t]))).reshape(m) for t in ts}
        for k in range(m):
            e = make(vals[:, k : k + 1].copy(), kw)
            for t in ts:
                with rec.case("rad max, single entry", job["grid"], "fill", mode, job["inter"], job["extra"], "values", vals[:, k].tolist(), "target", t):
                    got = np.asarray(e(np.array([t]))).reshape(-1)
                    need(got.size == 1 and abs(got[0] - ref[t][k]) <= 1e-12, lambda: f"alone {got.tolist()}, in a table {ref[t][k]}")


def run(job, rec):
    from pyirf.interpolation import (
        GridDataInterpolator,
        ParametrizedNearestNeighborSearcher,
        ParametrizedNearestSimplexExtrapolator,
        ParametrizedVisibleEdgesExtrapolator,
        RadMaxEstimator,
    )

    icls = {"linear": GridDataInterpolator, "nn": ParametrizedNearestNeighborSearcher}[job["inter"]]
    ecls = {"ns": ParametrizedNearestSimplexExtrapolator, "ve": ParametrizedVisibleEdgesExtrapolator, "nn": ParametrizedNearestNeighborSearcher, "none": None}[job["extra"]]
    base = list(GRIDS[job["grid"]])
    dim = len(base[0])
    n = len(base)
    alphabet = [0.25, 0.5, FILL, 0.0] if n <= 4 or job["deep"] and n <= 5 else [0.25, 0.5, FILL]
    if n > 6:
        # every assignment of fill values, the cuts differ between the points
        rows = [[FILL if b else 0.1 + 0.05 * i for i, b in enumerate(bits)] for bits in itertools.product((0, 1), repeat=n)]
    else:
        rows = list(itertools.product(alphabet, repeat=n))
    entries = np.array(rows).T  # (n, entries)
    m = entries.shape[1]
    tg = [(t,) for t in targets_1d([p[0] for p in base], 8)] if dim == 1 else targets_2d(base, 10 if job["deep"] else 5)
    above = entries.copy()
    above[entries == FILL] = FILL * 2  # stored values above the given fill value count as fill values
    # fill values and values above in one entry; a given fill value that occurs nowhere
    mixed = np.where((entries == FILL) & (np.add.outer(np.arange(n), np.arange(m)) % 2 == 0), FILL * 2, entries)
    below = np.where(entries == FILL, 0.6, entries)
    nearly = np.where(entries == FILL, FILL * (1 - 1e-6), entries)  # next to the fill value, but below
    modes = [("nearly", dict(fill_value=FILL), nearly, FILL), ("mixed", dict(fill_value=FILL), mixed, FILL), ("nowhere", dict(fill_value=FILL), below, FILL)]
    modes += [("given", dict(fill_value=FILL), entries, FILL), ("infer", dict(fill_value="infer"), entries, FILL),
             ("above", dict(fill_value=FILL), above, FILL), ("none", dict(), entries, None), ("None", dict(fill_value=None), entries, None)]

    for oname, order in (("canonical", list(range(n))), ("reversed", list(range(n))[::-1]), ("rotated", list(range(n))[1:] + [0])):
        pts = [base[i] for i in order]
        g = Grid(pts)
        arr = np.array(pts)
        pos = {}
        for t in tg:
            inside = g.inside(t)
            algo = job["inter"] if inside else job["extra"]
            cells = g.cells(t) if inside else g.nearest(t)
            if algo == "nn":
                vals = nearest(pts, t)
                pos[t] = (inside, algo, [(v, None) for v in vals])
            elif algo == "ve":
                # blended over all visible cells, entries with fill values only use the nearest cell
                pos[t] = (inside, algo, [(v, c) for v in g.blended(t) for c in cells])
            else:
                pos[t] = (inside, algo, [(c, c) for c in cells])
        if n <= 4 and oname == "canonical":
            single(job, rec, lambda v, kw: RadMaxEstimator(arr, v, interpolator_cls=icls, extrapolator_cls=ecls, **kw), modes, pos, ecls, n)
        for mode, kw, vals, fill in modes:
            vals = vals[order]
            for shape in ((m,), (1, m), (m, 1), None) if mode in ("given", "infer", "None") else ((m,), None):
                if shape is None:
                    k = next(k for k in range(int(m**0.5), 0, -1) if m % k == 0)
                    shape = (k, m // k)
                v = vals.reshape((n,) + shape)
                e = RadMaxEstimator(arr, v, interpolator_cls=icls, extrapolator_cls=ecls, **kw)
                for t, (inside, algo, cands) in pos.items():
                    if not inside and ecls is None:
                        continue
                    with rec.case("rad max", job["grid"], oname, "fill", mode, "shape", shape, job["inter"], job["extra"], "target", t, states=m, steps=m):
                        tp = np.array([t])
                        got = pure(e, tp, again=True, label="RadMaxEstimator") if shape == (m,) and mode == "given" else e(tp)
                        got = np.asarray(got)
                        if got.shape == shape and algo == "nn":
                            got = got[np.newaxis]
                        need(got.shape == (1,) + shape, lambda: f"shape {got.shape}, expected {(1,) + shape}")
                        got = got.reshape(m)
                        need(np.isfinite(got).all(), "not finite")
                        best = None
                        for w, cell in cands:
                            want = sum(float(c) * vals[i] for i, c in w.items())
                            scale = sum(abs(float(c)) for c in w.values()) * 2
                            if algo == "ve" and fill is not None:
                                alone = sum(float(c) * vals[i] for i, c in cell.items())
                                want = np.where((vals >= fill).any(axis=0), alone, want)
                                scale += sum(abs(float(c)) for c in cell.values()) * 2
                            if algo != "nn":
                                want = np.maximum(want, 0)
                            if fill is not None and algo != "nn":
                                idx = list(cell)
                                cnt = (vals[idx] >= fill).sum(axis=0)
                                if dim == 1:
                                    want = np.where(cnt >= 1, fill, want)
                                else:
                                    want = np.where(cnt == 1, vals[idx].min(axis=0), want)
                                    want = np.where(cnt >= 2, fill, want)
                                want = np.minimum(want, fill)
                            d = np.abs(got - want)
                            bad = d > 1e-12 * scale
                            if best is None or bad.sum() < best[0]:
                                best = (int(bad.sum()), want, bad)
                        need(best[0] == 0, lambda: f"entry with values {dict(zip(pts, vals[:, int(np.argwhere(best[2])[0][0])].tolist()))}: "
                                                   f"{got[best[2]][0]!r}, expected {best[1][best[2]][0]!r}")
                        if fill is not None and algo != "nn":
                            need(((got >= 0) & (got <= fill)).all(), "out of [0, fill value]")
                        rec.outcome(np.round(got[::5], 6).tolist())
