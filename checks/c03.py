import itertools
import math
import operator

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.engine import HarnessError
from mc.models import OVER, UNDER, bin_of, cone, hist_bin, li_ma_excess, quantile, rel_sensitivity, ring
from mc.util import INF, NAN, eq, need, pure

SPACE = """Scan grids: all ordered subsets of up to 3 of 4 gamma/hadron efficiencies (optimize_gh_cut, eight comparison functions (operators, ufuncs, plain functions)), all
combinations of multiplicity, g/h and theta efficiency lists of lengths 1 to 3 in rising and falling order (optimize_cuts), crossed
with 10 event populations (negative scores, rich, sparse, empty bins, no background, particle types removed by tight cuts, no events in range, values tied with cuts and ring limits, high multiplicities, no background at high multiplicities), weights, alpha,
rings, theta limits and significance functions that make some combinations invalid. Every scanned combination is re-evaluated for
every bin by an independent plain Python model of cut, histogram, background scaling and sensitivity."""
ASSUMPTIONS = ["relative sensitivities agree up to 1e-6, combinations that are equally good are interchangeable",
               "event scores are never within 1e-6 of an interpolated cut value (exact ties only where the cut is an event value by definition)"]

EDGES = [0.5, 1.0, 4.0, 10.0]
EFFS = [0.31, 0.573217, 0.83, 1.0]


def seq(i, m, lo, hi, k=37):
    return lo + (hi - lo) * ((i * k) % m) / m


def population(name):
    """signal, background as lists of dicts"""
    sig, bkg = [], []
    # numbers per bin, chosen such that no percentile rank used is an integer
    ns = {"rich": (24, 33, 42), "sparse": (24, 6, 9), "empty": (24, 0, 33), "nobkg": (24, 33, 42), "particles": (24, 33, 24), "outside": (24, 33, 24), "ties": (24, 33, 42), "telescopes": (60, 66, 72), "clean": (24, 33, 42), "negative": (24, 6, 42)}[name]
    nb = {"rich": (60, 45, 30), "sparse": (60, 45, 3), "empty": (60, 45, 0), "nobkg": (0, 0, 0), "particles": (60, 45, 30), "outside": (40, 40, 40), "ties": (60, 45, 30), "telescopes": (60, 45, 30), "clean": (60, 45, 30), "negative": (60, 45, 30)}[name]
    centers = [0.7, 2.0, 5.0]
    for b in range(3):
        for i in range(ns[b]):
            sig.append(dict(e=centers[b] * (1 + 0.01 * (i % 5)), s=seq(i, 101, 0.30 + 0.1 * b, 0.97, 37), t=seq(i, 103, 0.005, 0.35, 61), o=0.4,
                            w=1.0 + 0.5 * (i % 3), m=2 + (i * 5 + b) % 4, p="gamma"))
        for i in range(nb[b]):
            p = ["proton", "electron"][i % 3 == 0]
            top = 0.45 if name == "particles" and p == "electron" else 0.93
            bkg.append(dict(e=centers[b] * (1 + 0.01 * (i % 7)), s=seq(i, 97, 0.02, top, 41), t=0.5, o=seq(i, 89, 0.0, 1.3, 31),
                            w=0.8 + 0.7 * ((i + b) % 4), m=2 + (i * 7 + b) % 4, p=p))
    if name == "outside":
        for lst in (sig, bkg):
            for i in range(40):
                lst.append(dict(e=[0.1, 20.0][i % 2], s=0.99 if lst is sig else 0.98, t=0.01, o=0.2, w=50.0, m=5, p="gamma" if lst is sig else "proton"))
    if name == "telescopes":
        # background is suppressed by high multiplicities
        for i, x in enumerate(sig):
            x["m"] = [9, 12, 70, 3][i % 4]
        for i, x in enumerate(bkg):
            x["m"] = [2, 3, 4, 5, 7, 8, 9, 11, 12, 75][i % 10]
    if name == "clean":
        # no background is left at high multiplicities
        for i, x in enumerate(sig):
            x["m"] = [2, 6, 7, 3, 8][i % 5]
        for i, x in enumerate(bkg):
            x["m"] = [2, 3, 5][i % 3]
    if name == "negative":
        for x in sig + bkg:
            x["s"] -= 3
    if name == "ties":
        for lst in (sig, bkg):
            for i, x in enumerate(lst):
                x["s"] = round(4 * x["s"]) / 4
                x["t"] = [0.05, 0.1, 0.2, 0.25][i % 4]
                x["o"] = [0.0, 0.3, 0.6, 1.0, 1.2][i % 5]
    return sig, bkg


POPS = ["rich", "sparse", "empty", "nobkg", "particles", "outside", "ties", "telescopes", "clean", "negative"]
OPS = dict(ge=operator.ge, gt=operator.gt, le=operator.le, lt=operator.lt, g_function=lambda a, b: a >= b, l_function=lambda a, b: a <= b, l_ufunc=np.less, g_ufunc=np.greater)


def table(evs, particles, eu="TeV", au="deg"):
    t = QTable()
    t["reco_energy"] = u.Quantity([x["e"] for x in evs], "TeV").to(eu)
    t["gh_score"] = np.array([x["s"] for x in evs], dtype=float)
    t["theta"] = u.Quantity([x["t"] for x in evs], "deg").to(au)
    t["reco_source_fov_offset"] = u.Quantity([x["o"] for x in evs], "deg").to(au)
    t["weight"] = np.array([x["w"] for x in evs], dtype=float)
    t["multiplicity"] = np.array([x["m"] for x in evs], dtype=int)
    if particles:
        t["particle_type"] = np.array([x["p"] for x in evs], dtype="U10")
    return t


def jobs(tier):
    js = []
    perms = [list(p) for k in (1, 2, 3) for p in itertools.permutations(EFFS, k)]
    for pop in POPS:
        for op in OPS:
            if "_" in op and pop not in ("rich", "ties", "sparse", "negative"):
                continue
            js.append(dict(kind="gh", pop=pop, op=op, deep=tier == "thorough"))
        for mult in ([2], [2, 4], [4, 2], [5, 2, 3]) if pop not in ("telescopes", "clean") else ([6], [6, 2], [3, 6]) if pop == "clean" else ([8], [10, 3], [5, 9, 12], [80], [80, 5]):
            js.append(dict(kind="all", pop=pop, mult=mult, deep=tier == "thorough"))
    for alpha in (0.2, 1.0, 2.5):
        js += [dict(kind="variants", alpha=alpha, pop=pop) for pop in (POPS if alpha <= 1 else ("rich", "particles", "clean"))]
    return js


def percentile_cut(evs, key, perc, fill, lo=None, hi=None, min_events=10):
    """per bin: cut value"""
    n = len(EDGES) - 1
    bins = [[] for _ in range(n)]
    for x in evs:
        b = bin_of(x["e"], EDGES)
        if b not in (UNDER, OVER):
            bins[b].append(x[key])
    res = []
    for vals in bins:
        if len(vals) < min_events:
            res.append(fill)
            continue
        vals.sort()
        pos = perc / 100 * (len(vals) - 1)
        if 1e-9 < perc < 100 - 1e-9 and abs(pos - round(pos)) < 1e-6:
            raise HarnessError(f"rank {pos} for {len(vals)} events, percentile {perc}")
        q = quantile(vals, min(max(perc / 100, 0), 1))
        if lo is not None:
            q = max(q, lo)
        if hi is not None:
            q = min(q, hi)
        res.append(q)
    return res


def evaluate(sig, bkg, gh, theta, op, mult, alpha, rng, req, sat=None):
    """per bin (signal n, weighted, background n, weighted, relative sensitivity)"""
    n = len(EDGES) - 1
    area = ring(math.radians(rng[0]), math.radians(rng[1]))
    out = []
    for b in range(n):
        s = [x for x in sig if bin_of(x["e"], EDGES) == b and op(x["s"], gh[b]) and x["t"] <= theta[b] and x["m"] >= mult]
        g = [x for x in bkg if bin_of(x["e"], EDGES) == b and op(x["s"], gh[b]) and x["m"] >= mult and rng[0] <= x["o"] < rng[1]]
        k = cone(math.radians(theta[b])) / area / alpha
        sw, gw = sum(x["w"] for x in s), k * sum(x["w"] for x in g)
        m = {"min_significance": "min_sig", "min_signal_events": "min_events", "min_excess_over_background": "min_excess"}
        kw = {m[a]: v for a, v in req.items()}
        if sat is not None and gw > sat and sw > 0:
            r = NAN
        else:
            r = rel_sensitivity(sw, gw, alpha, **kw)
        parts = {}
        for x in g:
            parts[x["p"]] = parts.get(x["p"], 0) + k * x["w"]
        out.append((len(s), sw, k * len(g), gw, r, parts))
    return out


def saturating(sat):
    from pyirf.statistics import li_ma_significance

    def fun(n_on, n_off, alpha):
        s = li_ma_significance(n_on, n_off, alpha)
        return np.where(np.asarray(n_off) > sat, np.minimum(s, 3.0), s) + 0.0

    return fun


def judge(table_, combos, cuts_of, sat, particles, tag):
    """combos: list of (label, per-bin evaluation); cuts_of(label, bin) -> dict of reported values to compare"""
    for b in range(len(EDGES) - 1):
        rs = [ev[b][4] for _, ev in combos]
        valid = [r for r in rs if r == r]
        got = float(table_["relative_sensitivity"][b])
        if not valid:
            need(got != got, f"{tag} bin {b}: all combinations are invalid but result is {got}")
            cand = list(range(len(combos)))
        else:
            best = min(valid)
            if best == INF and sat is not None:
                continue  # no signal at all: the excess is rounding noise for which the saturating function is undefined
            if best == INF:
                need(got == INF, f"{tag} bin {b}: relative sensitivity {got}, expected inf ({[(l, ev[b][:5]) for l, ev in combos]})")
            else:
                need(got == got and abs(got - best) <= 2e-6 * best,
                     f"{tag} bin {b}: relative sensitivity {got}, best scanned combination has {best} ({[round(r, 5) for r in rs]})")
            cand = [i for i, r in enumerate(rs) if r == best or (r == r and abs(r - best) <= 4e-6 * best)]
        # all reported numbers belong to one and the same of the best combinations
        problems = []
        for i in cand:
            label, ev = combos[i]
            try:
                for what, (g, w, unit) in cuts_of(label, b).items():
                    eq(g, w, unit, what)
                ns, sw, nb, bw, r, parts = ev[b]
                if r == r and r < INF:
                    eq(table_["n_signal"][b], ns * r, None, "n_signal", rtol=1e-5)
                    eq(table_["n_signal_weighted"][b], sw * r, None, "n_signal_weighted", rtol=1e-5)
                eq(table_["n_background"][b], nb, None, "n_background", rtol=1e-8)
                eq(table_["n_background_weighted"][b], bw, None, "n_background_weighted", rtol=1e-8)
                if particles:
                    for p in {p for _, e in combos for p in e[b][5]}:
                        eq(table_[f"n_{p}_weighted"][b], parts.get(p, 0.0), None, f"n_{p}_weighted", rtol=1e-8)
                break
            except AssertionError as e:
                problems.append(f"{label}: {e}")
        else:
            need(False, f"{tag} bin {b}: reported values belong to none of the best combinations: {problems[:2]}")
    for c, e in (("low", EDGES[:-1]), ("high", EDGES[1:]), ("center", [0.5 * (x + y) for x, y in zip(EDGES[:-1], EDGES[1:])])):
        eq(table_["reco_energy_" + c], e, "TeV", c)


THETAS = [[0.2, 0.1, 0.25], [0.05, 0.3, 0.15]]


def theta_table(vals, au="deg", eu="TeV"):
    t = QTable()
    e = u.Quantity(EDGES, "TeV").to(eu)
    t["low"], t["high"] = e[:-1], e[1:]
    t["center"] = 0.5 * (e[:-1] + e[1:])
    t["cut"] = u.Quantity(vals, "deg").to(au)
    return t


def check_edges(t):
    eq(t["low"], EDGES[:-1], "TeV", "low")
    eq(t["high"], EDGES[1:], "TeV", "high")
    eq(t["center"], [0.5 * (x + y) for x, y in zip(EDGES[:-1], EDGES[1:])], "TeV", "center")


def run_gh(rec, pop, opname, effs, alpha=0.2, rng=(0.0, 1.0), theta=THETAS[0], req={}, sat=None, particles=False, units=("TeV", "deg", "TeV"), again=False, flip=False, default_op=False):
    from pyirf.cut_optimization import optimize_gh_cut

    sig, bkg = population(pop)
    op = OPS[opname]
    if opname[0] == "l":
        for x in sig + bkg:
            x["s"] = 1 - x["s"]
    if flip:
        sig, bkg = sig[::-1], bkg[::-1]
    S, B = table(sig, particles, units[0], units[1]), table(bkg, particles, units[0], units[1])
    kw = dict(req)
    if sat is not None:
        kw["significance_function"] = saturating(sat)
    if not default_op:
        kw["op"] = op
    res, cuts = pure(optimize_gh_cut, S, B, u.Quantity(EDGES, "TeV").to(units[2]), effs, theta_table(theta, units[1], units[0]), again=again,
                     fov_offset_min=rng[0] * u.deg, fov_offset_max=rng[1] * u.deg, alpha=alpha, progress=False, **kw)
    fill = (min if opname[0] == "l" else max)(x["s"] for x in sig)
    combos, ghs = [], {}
    for eff in effs:
        perc = 100 * eff if opname[0] == "l" else 100 * (1 - eff)
        gh = percentile_cut(sig, "s", perc, fill)
        ghs[eff] = gh
        combos.append((eff, evaluate(sig, bkg, gh, theta, op, 0, alpha, rng, req, sat)))
    check_edges(cuts)
    judge(res, combos, lambda eff, b: {"gh cut": (cuts["cut"][b], ghs[eff][b], None), "efficiency": (cuts["efficiency"][b], eff, None)}, sat, particles, "optimize_gh_cut")
    return tuple(np.round(np.asarray(cuts["efficiency"]), 3).tolist()), len(combos)


def run_all(rec, pop, mults, ghs, thetas, alpha=0.2, rng=(0.0, 1.0), lim=None, req={}, sat=None, particles=False, units=("TeV", "deg", "TeV"), again=False, aslist=True):
    from pyirf.cut_optimization import optimize_cuts

    sig, bkg = population(pop)
    S, B = table(sig, particles, units[0], units[1]), table(bkg, particles, units[0], units[1])
    kw = dict(req)
    if sat is not None:
        kw["significance_function"] = saturating(sat)
    lo, hi = lim or (0.02, 0.3)
    if lim:
        kw.update(theta_min_value=lo * u.deg, theta_max_value=(hi * u.deg).to(units[1]))
    conv = list if aslist else np.array
    res, mc, tc, gc = pure(optimize_cuts, S, B, u.Quantity(EDGES, "TeV").to(units[2]), conv(mults), conv(ghs), conv(thetas), again=again,
                           fov_offset_min=rng[0] * u.deg, fov_offset_max=rng[1] * u.deg, alpha=alpha, progress=False, **kw)
    fill = max(x["s"] for x in sig)
    combos, vals = [], {}
    for m in mults:
        sel = [x for x in sig if x["m"] >= m]
        gcs = {g: percentile_cut(sel, "s", 100 * (1 - g), fill) for g in ghs}
        tcs = {t: percentile_cut(sel, "t", 100 * t, hi, lo, hi) for t in thetas}
        for g, t in itertools.product(ghs, thetas):
            combos.append(((m, g, t), evaluate(sig, bkg, gcs[g], tcs[t], operator.ge, m, alpha, rng, req, sat)))
            vals[m, g, t] = gcs[g], tcs[t]
    for t in (mc, tc, gc):
        check_edges(t)

    def cuts_of(label, b):
        m, g, t = label
        return {"multiplicity cut": (mc["cut"][b], m, None), "gh cut": (gc["cut"][b], vals[label][0][b], None), "theta cut": (tc["cut"][b], vals[label][1][b], "deg"),
                "gh efficiency": (gc["efficiency"][b], g, None), "theta efficiency": (tc["efficiency"][b], t, None)}

    judge(res, combos, cuts_of, sat, particles, "optimize_cuts")
    return tuple(np.round(np.asarray(gc["efficiency"]), 3).tolist()), len(combos)


def run(job, rec):
    if job["kind"] == "gh":
        perms = [list(p) for k in (1, 2, 3) for p in itertools.permutations(EFFS, k)]
        for i, effs in enumerate(perms):
            if len(effs) == 3 and not job["deep"] and i % 2:
                continue
            with rec.case("optimize_gh_cut", job["pop"], job["op"], effs, steps=len(effs)):
                out, n = run_gh(rec, job["pop"], job["op"], effs, again=len(effs) == 2 and i % 4 == 0, particles=job["pop"] == "particles", flip=i % 3 == 0,
                                default_op=job["op"] == "ge" and i % 5 == 0)
                rec.outcome(out)
        return
    if job["kind"] == "all":
        gh_lists = [[0.831234], [0.31, 0.83], [0.83, 0.31], [1.0, 0.57, 0.31]]
        th_lists = [[0.712345], [0.41, 0.83], [0.89, 0.41], [0.41, 0.89, 0.63]]
        for g, t in itertools.product(gh_lists, th_lists):
            if len(g) == 3 and len(t) == 3 and len(job["mult"]) == 3 and not job["deep"]:
                g = g[:2]
            with rec.case("optimize_cuts", job["pop"], "multiplicity", job["mult"], "g/h", g, "theta", t, steps=len(g) * len(t) * len(job["mult"])):
                out, n = run_all(rec, job["pop"], job["mult"], g, t, again=len(g) * len(t) * len(job["mult"]) == 4, particles=job["pop"] == "particles", aslist=len(g) != 2)
                rec.outcome(out)
        return
    # settings one at a time and in pairs
    alpha = job["alpha"]
    reqs = [{}, dict(min_significance=2), dict(min_signal_events=200), dict(min_excess_over_background=3.0)]
    for pop in [job["pop"]]:
        for rng, req in itertools.product([(0.0, 1.0), (0.3, 0.9)], reqs):
            with rec.case("gh", pop, "alpha", alpha, "ring", rng, req):
                run_gh(rec, pop, "ge", [0.31, 0.83, 0.57], alpha, rng, THETAS[1], req, particles=True)
            with rec.case("all", pop, "alpha", alpha, "ring", rng, req):
                run_all(rec, pop, [2, 4], [0.83, 0.31], [0.41, 0.83], alpha, rng, req=req, particles=True)
        for sat in (0.0, 0.5, 2.0, 10.0):
            with rec.case("invalid combinations for n_off >", sat, pop, "alpha", alpha):
                run_gh(rec, pop, "ge", [0.83, 0.31, 0.57], alpha, sat=sat)
                rec.outcome(run_gh(rec, pop, "le", [0.31, 0.83], alpha, sat=sat)[0])
                rec.outcome(run_all(rec, pop, [2, 4], [0.83, 0.31], [0.83, 0.41], alpha, sat=sat)[0])
        for lim in ((0.05, 0.2), (0.0, 0.1), (0.1, 0.1), (0.2, 1.0)):
            with rec.case("theta limits", lim, pop, "alpha", alpha):
                run_all(rec, pop, [3, 2], [0.83, 0.31], [0.41, 0.83], alpha, lim=lim)
        for units in itertools.product(("TeV", "GeV"), ("deg", "rad"), ("TeV", "GeV")):
            if pop == "ties":
                break  # values exactly at edges do not survive a unit conversion
            with rec.case("units", units, pop, "alpha", alpha):
                run_gh(rec, pop, "ge", [0.31, 0.83], alpha, units=units)
                run_all(rec, pop, [2], [0.31, 0.83], [0.41, 0.83], alpha, units=units)
