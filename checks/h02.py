import itertools
import multiprocessing

import astropy.units as u
import numpy as np

from mc.pdfs import pdf, widths
from mc.util import fail, need, same, scramble, snap

SPACE = """{n} estimator configurations (effective area, rad max with and without fill values, energy dispersion, PSF, parametrised and generic PDF estimators and bare inter-/extrapolators with all algorithms on 1D and 2D grids) that share grid
points, templates, bins and keyword dicts: all sequences of 3 (thorough: 4) targets on one estimator, and for every ordered pair of configurations and all target choices the interleaving construct A, estimate with A, construct B,
estimate with B, estimate with A, construct A again, estimate with it, where every result is overwritten by the caller as soon as it was compared. Each result is compared with the one of a fresh estimator in a fresh process, and the shared
inputs with their original contents."""
ASSUMPTIONS = ["modifying the arrays of the templates after the construction of an estimator is not covered"]

T1 = [[1.0], [1.5], [2.0], [4.0], [5.0], [0.25]]  # node, inside, node, border node, outside, outside
T2 = [[0.0, 0.0], [0.5, 0.25], [2.0, 1.0], [2.0, 2.0], [3.0, 2.5], [-1.0, 1.0]]


class Pool:
    def __init__(self):
        self.grid1 = np.array([2.0, 1.0, 4.0])
        self.grid1c = np.array([[2.0], [1.0], [4.0]])
        self.grid2 = np.array([[0.0, 0.0], [2.0, 0.0], [0.0, 2.0], [2.0, 2.0], [1.0, 0.75]])
        self.sorted1 = np.array([[1.0], [2.0], [4.0]])
        self.migra = np.array([0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0])
        self.theta = [0.0, 0.125, 0.25, 0.5, 1.0] * u.deg
        i = np.arange(5)[:, None, None]
        j, k = np.arange(2)[None, :, None], np.arange(3)[None, None, :]
        self.aeff2 = (10.0 + 7 * i + 3 * j + k + (i * k) % 3) * 100 * u.m**2
        self.aeff2[0, 0, 0] = 0 * u.m**2
        self.aeff1 = self.aeff2[:3].copy()
        self.rad2 = 0.05 * (1 + (2 * i + j + 3 * k) % 5) + 0 * j
        self.rad2[self.rad2 > 0.24] = 0.25
        self.rad1 = self.rad2[:3].copy()
        self.par2 = 1.0 * i + 2 * j - k + (i * j) % 2
        self.par1 = self.par2[:3].copy()
        w = widths(self.migra, False)
        shapes = np.array([[[1, 2, 4, 2, 1, 0], [0, 1, 3, 4, 2, 1], [0, 0, 1, 4, 3, 2], [1, 3, 4, 2, 1, 1], [2, 4, 3, 1, 1, 0]][(a + b) % 5] for a in range(5) for b in range(2)], float)
        self.disp2 = np.stack([pdf(s, w) for s in shapes]).reshape(5, 2, 6)[..., None] * np.ones(2)
        self.disp2[1, 0, :, 1] = 0
        self.disp1 = self.disp2[:3].copy()
        w = widths(self.theta.value, True)
        shapes = np.array([[[1, 2, 4, 2], [4, 3, 1, 1], [1, 1, 2, 3], [2, 4, 2, 1], [3, 3, 1, 0]][(a + 2 * b) % 5] for a in range(5) for b in range(2)], float)
        self.psf2 = np.stack([pdf(s, w) for s in shapes]).reshape(5, 1, 2, 4) / u.sr
        self.psf1 = self.psf2[:3].copy()
        self.empty = {}
        self.near = {"method": "nearest"}
        self.norm = {"norm_ord": 1}
        self.quant = {"quantile_resolution": 5e-3}
        self.m2 = {"m": 2}
        self.targets = {1: [np.array([t]) for t in T1], 2: [np.array([t]) for t in T2]}

    def snapshot(self):
        return snap(vars(self))


def kinds():
    import pyirf.interpolation as pi

    G, MM, Q, NN, DN = pi.GridDataInterpolator, pi.MomentMorphInterpolator, pi.QuantileInterpolator, pi.ParametrizedNearestNeighborSearcher, pi.DiscretePDFNearestNeighborSearcher
    NS, VE, MS = pi.ParametrizedNearestSimplexExtrapolator, pi.ParametrizedVisibleEdgesExtrapolator, pi.MomentMorphNearestSimplexExtrapolator
    A, R, E, P = pi.EffectiveAreaEstimator, pi.RadMaxEstimator, pi.EnergyDispersionEstimator, pi.PSFTableEstimator
    C, D = pi.ParametrizedComponentEstimator, pi.DiscretePDFComponentEstimator
    # name -> (dimension, factory)
    return {
        "aeff1": (1, lambda p: A(p.grid1, p.aeff1, G, p.empty, NS, p.empty)),
        "aeff2": (2, lambda p: A(p.grid2, p.aeff2, G, p.empty, VE, p.m2)),
        "aeff2nn": (2, lambda p: A(p.grid2, p.aeff2, NN, p.norm, NN, p.norm)),
        "rad1": (1, lambda p: R(p.grid1c, p.rad1, "infer", G, p.empty, NS, p.empty)),
        "rad1nofill": (1, lambda p: R(p.grid1, p.rad1, None, G, None, NN, p.norm)),
        "rad2": (2, lambda p: R(p.grid2, p.rad2, 0.25, G, p.empty, NS, p.empty)),
        "rad2nn": (2, lambda p: R(p.grid2, p.rad2, "infer", NN, p.norm, NS, None)),
        "edisp1q": (1, lambda p: E(p.grid1, p.migra, p.disp1, Q, p.quant, DN, p.norm)),
        "edisp1m": (1, lambda p: E(p.grid1, p.migra, p.disp1, MM, p.empty, MS, p.empty)),
        "edisp2m": (2, lambda p: E(p.grid2, p.migra, p.disp2, MM, p.empty, MS, p.empty)),
        "edisp2q": (2, lambda p: E(p.grid2, p.migra, p.disp2, Q, p.quant, MS, p.empty)),
        "edisp2nn": (2, lambda p: E(p.grid2, p.migra, p.disp2, DN, p.norm, DN, p.empty)),
        "psf1q": (1, lambda p: P(p.grid1, p.theta, p.psf1, Q, p.quant, MS, p.empty)),
        "psf1m": (1, lambda p: P(p.grid1c, p.theta, p.psf1, MM, p.empty, DN, p.empty)),
        "psf2m": (2, lambda p: P(p.grid2, p.theta, p.psf2, MM, p.empty, MS, p.empty)),
        "psf2nn": (2, lambda p: P(p.grid2, p.theta, p.psf2, DN, p.empty, DN, p.norm)),
        "par1": (1, lambda p: C(p.grid1, p.par1, G, p.near, NS, p.empty)),
        "par2": (2, lambda p: C(p.grid2, p.par2, G, p.empty, VE, p.empty)),
        "generic1": (1, lambda p: D(p.grid1, p.migra, np.swapaxes(p.disp1, -2, -1), Q, p.quant, MS, p.empty)),
        "bareNS": (1, lambda p: NS(p.sorted1, p.par1)),
        "bareNN": (2, lambda p: NN(p.grid2, p.par2)),
        "bareDN": (2, lambda p: DN(p.grid2, p.migra, np.swapaxes(p.disp2, -2, -1))),
        "bareVE": (2, lambda p: VE(p.grid2, p.par2, **p.m2)),
        "bareMM": (1, lambda p: MM(p.sorted1, p.migra, np.swapaxes(p.disp1, -2, -1))),
    }


INSIDE = {1: (0, 1, 2, 3), 2: (0, 1, 2, 3)}
OUTSIDE = {1: (4, 5), 2: (4, 5)}


def targets(name, dim):
    if name == "bareMM":
        return INSIDE[dim]
    if name in ("bareNS", "bareVE"):
        return OUTSIDE[dim]
    return INSIDE[dim] + OUTSIDE[dim]


NAMES = REFERENCE = None
SPACE = SPACE.replace("{n}", "24")


def fresh(args):
    import warnings

    name, t = args
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            p = Pool()
            dim, make = kinds()[name]
            return snap(make(p)(p.targets[dim][t].copy()))
        except Exception as e:  # noqa: BLE001
            return ("error", f"{type(e).__name__}: {str(e)[:300]}")


def references():
    global NAMES, REFERENCE
    if REFERENCE is None:
        ks = kinds()
        NAMES = list(ks)
        todo = [(n, t) for n in NAMES for t in targets(n, ks[n][0])]
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as p:
            REFERENCE = dict(zip(todo, p.map(fresh, todo, chunksize=1)))
    return REFERENCE


def jobs(tier):
    references()
    deep = tier == "thorough"
    return [dict(first=n, deep=deep) for n in NAMES] + [dict(single=n, deep=deep) for n in NAMES]


class Run:
    def __init__(self):
        self.pool = Pool()
        self.ks = kinds()
        self.state = self.pool.snapshot()

    def make(self, name):
        est = self.ks[name][1](self.pool)
        self.inputs(f"constructing {name}")
        return est

    def estimate(self, est, name, t, where=""):
        want = REFERENCE[name, t]
        if isinstance(want, tuple) and want and want[0] == "error":
            fail(f"{name} fails for a fresh estimator at target {t}: {want[1]}")
        tp = self.pool.targets[self.ks[name][0]][t]
        res = est(tp)
        if not same(want, snap(res), rtol=1e-12):
            fail(f"{where}{name} at target {tp.tolist()} differs from a fresh estimator: {str(snap(res))[:250]} instead of {str(want)[:250]}")
        self.inputs(f"estimating with {name}")
        scramble(res)
        self.inputs(f"the caller modifying the result of {name}")

    def inputs(self, what):
        new = self.pool.snapshot()
        if not same(self.state, new):
            old = dict(self.state[1])
            fail(f"{what} modified the shared {[k for k, v in new[1] if not same(v, old[k])]}")


def run(job, rec):
    references()
    ks = kinds()
    if "single" in job:
        name = job["single"]
        ts = targets(name, ks[name][0])
        r = Run()
        for seq in itertools.product(ts, repeat=4 if job["deep"] else 3):
            with rec.case(name, "targets", seq, steps=len(seq) + 1, traces=len(seq)):
                try:
                    est = r.make(name)
                    for t in seq:
                        r.estimate(est, name, t)
                except Exception:
                    r = Run()
                    raise
                rec.outcome((name, seq))
        return
    a = job["first"]
    ta = targets(a, ks[a][0])
    r = Run()
    for b in NAMES:
        tb = targets(b, ks[b][0])
        pick = itertools.product(ta, tb, ta) if job["deep"] else [(x, y, ta[(i + j) % len(ta)]) for i, x in enumerate(ta) for j, y in enumerate(tb)]
        for x, y, z in pick:
            with rec.case("A =", a, "at", (x, z), "B =", b, "at", y, steps=8, traces=5):
                try:
                    ea = r.make(a)
                    r.estimate(ea, a, x)
                    eb = r.make(b)
                    r.estimate(eb, b, y)
                    r.estimate(ea, a, z, "(after B) ")
                    again = r.make(a)
                    r.estimate(again, a, x, "(new estimator) ")
                    r.estimate(eb, b, y, "(repeated) ")
                except Exception:
                    r = Run()
                    raise
                rec.outcome((a, b, x, y, z))
