import itertools
import math
import operator

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import OVER, UNDER, bin_of
from mc.util import INF, NAN, eq, multisets, need, pump, up, down

from .c03 import EDGES, EFFS, POPS, population, table, theta_table

SPACE = """Cuts: all multisets of up to 3 (thorough: 4) events over {2 bins, both sides of an edge, outside} x 4 (thorough: 5) values, ties included, and pumped lists, for ten percentiles, min_events settings and units: the cut
table is applied to the events it was derived from (<= and >, by value and by index) and compared with the number of events the percentile promises, with angular_resolution of the same events, and with the complementary cut.
Optimisation: all pairs and triples of efficiencies and multiplicities of the C03 populations: the returned cut tables are applied to the events with the public selection functions, histogram tables and background
estimate and must give back the reported sensitivity table; scaling the signal weights by the reported relative sensitivity must give a relative sensitivity of one."""
ASSUMPTIONS = ["relative sensitivities agree up to 1e-6"]

PERCENTILES = (0, 10, 25, 33.3, 50, 68, 75, 90, 99, 100)


def jobs(tier):
    deep = tier == "thorough"
    js = [dict(kind="percentile", edges=k, p=p, deep=deep) for k in range(3) for p in range(4)]
    js += [dict(kind="gh", pop=p, deep=deep) for p in POPS] + [dict(kind="all", pop=p, mult=m, deep=deep) for p in POPS for m in ([2], [2, 4], [5, 2, 3])]
    return js


BINS = [[1.0, 2.0, 4.0], [0.1, 0.3, 0.5, 0.7], [0.02, 1.0]]


def percentile(evs, edges, perc, min_events, unit, eunit):
    """evs: (energy, value)"""
    from pyirf.benchmarks import angular_resolution
    from pyirf.binning import calculate_bin_indices
    from pyirf.cuts import calculate_percentile_cut, evaluate_binned_cut, evaluate_binned_cut_by_index

    e = u.Quantity([x[0] for x in evs], "TeV", dtype=float).to(eunit)
    v = u.Quantity([x[1] for x in evs], "deg", dtype=float).to(unit)
    b = u.Quantity(edges, "TeV").to(eunit)
    cut = calculate_percentile_cut(v, e, b, fill_value=-7 * u.deg, percentile=perc, min_events=min_events)
    low = evaluate_binned_cut(v, e, cut, operator.le)
    high = evaluate_binned_cut(v, e, cut, operator.gt)
    idx, valid = calculate_bin_indices(e, b)
    need((low == evaluate_binned_cut_by_index(v, idx, valid, cut, operator.le)).all(), "selection by index and by value differ")
    need(not (low & high).any(), "an event passes a cut and its complement")
    need(((low | high) == valid).all(), "an event inside of the bins passes neither a cut nor its complement")
    n_tot = np.asarray(cut["n_events"])
    for k in range(len(edges) - 1):
        vals = sorted(x[1] for x in evs if bin_of(x[0], edges) == k)
        n = len(vals)
        need(n_tot[k] == n, f"bin {k}: n_events {n_tot[k]}, there are {n}")
        if n < min_events:
            need(not low[np.asarray(idx) == k].any(), f"bin {k}: events pass the fill value")
            continue
        got = int(low[np.asarray(idx) == k].sum())
        # events with a value at most the interpolated percentile, an exact rank may round to both sides
        pos = perc / 100 * (n - 1)
        ranks = {math.floor(pos), math.floor(pos + 1e-9), math.floor(pos - 1e-9)}
        ok = {sum(1 for x in vals if x <= vals[max(r, 0)]) for r in ranks}
        if len(set(vals)) < n or unit != "deg":
            # rounding of the interpolation between equal values or of unit conversions
            ok |= {sum(1 for x in vals if x < vals[max(r, 0)]) for r in ranks} | {sum(1 for x in vals if x <= vals[min(max(r, 0) + 1, n - 1)]) for r in ranks}
        need(got in ok, f"bin {k}: {got} of {n} events pass the {perc}% cut, expected {sorted(ok)}")
    # the same containment radius from the benchmark
    t = QTable({"reco_energy": e, "theta": v})
    res = angular_resolution(t, b, energy_type="reco", quantile=perc / 100)
    col = res.colnames[-1]
    for k in range(len(edges) - 1):
        need(int(res["n_events"][k]) == n_tot[k], f"bin {k}: angular_resolution counts {res['n_events'][k]}, cut table {n_tot[k]}")
        if n_tot[k] >= max(min_events, 1):
            eq(res[col][k], cut["cut"][k].to_value("deg"), "deg", "angular resolution and percentile cut", rtol=1e-9, atol=1e-12)
    return low.tolist()


def rebuild(sig, bkg, sel_s, sel_b, theta, alpha, rng, ebins, kw):
    from pyirf.binning import create_histogram_table
    from pyirf.sensitivity import calculate_sensitivity, estimate_background

    s = create_histogram_table(sig[sel_s], ebins, "reco_energy")
    b = estimate_background(bkg[sel_b], ebins, theta, alpha, rng[0] * u.deg, rng[1] * u.deg)
    return s, b, calculate_sensitivity(s, b, alpha=alpha, **kw)


def compare(got, want, tag):
    for c in got.colnames:
        g = got[c]
        if c not in want.colnames:
            # particle types without any selected event
            need(not np.asarray(g).any(), f"{tag}: column {c} is {g}")
            continue
        w = want[c]
        eq(g, np.asarray(getattr(w, "value", w)), getattr(w, "unit", None), f"{tag}: {c}", rtol=1e-6)
    need(set(want.colnames) <= set(got.colnames), f"{tag}: missing columns {set(want.colnames) - set(got.colnames)}")


def scaled(s, b, sens, alpha, kw, tag):
    """with the weights scaled by the relative sensitivity the source is just detectable"""
    from pyirf.sensitivity import calculate_sensitivity

    f = np.asarray(sens["relative_sensitivity"])
    if not np.isfinite(f).any():
        return
    s2 = s.copy()
    s2["n_weighted"] = s["n_weighted"] * np.where(np.isfinite(f), f, 1.0)
    again = calculate_sensitivity(s2, b, alpha=alpha, **kw)
    ok = np.isfinite(f)
    eq(np.asarray(again["relative_sensitivity"])[ok], np.ones(ok.sum()), None, f"{tag}: relative sensitivity of the scaled signal", rtol=5e-6)
    # 5 sigma, 10 events, 5 %
    sigma, n_min, frac = kw.get("min_significance", 5), kw.get("min_signal_events", 10), kw.get("min_excess_over_background", 0.05)
    n = np.asarray(again["n_signal_weighted"])[ok]
    bg = alpha * np.asarray(again["n_background_weighted"])[ok]
    sig = np.asarray(sens["significance"])[ok]
    tol = 1 - 5e-6
    need((n >= n_min * tol).all() and (n >= frac * bg * tol).all() and (sig >= sigma * tol).all(), f"{tag}: requirements are not met: {n}, {bg}, {sig}")
    tight = (np.abs(n / n_min - 1) < 1e-4) | (np.abs(sig / sigma - 1) < 1e-4) | (np.abs(n - frac * bg) < 1e-4 * np.maximum(frac * bg, 1e-9))
    need(tight.all(), f"{tag}: no requirement is just met: {n}, {bg}, {sig}")


def run(job, rec):
    if job["kind"] == "percentile":
        edges = BINS[job["edges"]]
        es = [edges[0], 0.5 * (edges[0] + edges[1]), down(edges[1]), edges[-1], 0.9 * edges[0]]
        if len(edges) > 2:
            es[2:2] = [edges[1], 0.5 * (edges[-2] + edges[-1])]
        vs = [0.0, 0.25, 0.3, 1.0, 0.3, 0.7][: 5 if job["deep"] else 4]
        alpha = list(itertools.product(es, vs))
        lists = [list(h) for h in multisets(alpha, 4 if job["deep"] and len(edges) == 2 else 3 if job["deep"] or len(edges) == 2 else 2, 0)]
        base = [(es[k % len(es)], ((k * 29) % 97) / 97) for k in range(97 * len(es))]
        same = [(es[1], 0.3)] * 30 + [(es[-2], ((k * 5) % 7) / 7) for k in range(30)]
        lists += [base[:n] for n in (9, 10, 11, 12, 35, 101, len(base))] + [same, same[:31], same[:12]]
        for j, evs in enumerate(lists):
            if j % 4 != job["p"]:
                continue
            many = len(evs) > 6
            for p in PERCENTILES if many else [PERCENTILES[(j // 4 + k) % 10] for k in (0, 4)]:
                m = (1, 2, 10, 11)[j % 4] if many else (1, 2)[(j // 8) % 2]
                units = [("deg", "TeV"), ("rad", "TeV"), ("deg", "GeV")][j % 3 if not any(x[0] in edges or x[0] == down(edges[1]) for x in evs) else j % 2]
                with rec.case("percentile", p, "min_events", m, units, "bins", edges, evs[:4], len(evs), "events", steps=max(1, len(evs))):
                    rec.outcome(tuple(percentile(evs, edges, p, m, *units)[:8]))
        return
    from pyirf.binning import calculate_bin_indices
    from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut
    from pyirf.cuts import evaluate_binned_cut, evaluate_binned_cut_by_index

    particles = job["pop"] in ("particles", "rich")
    S, B = [table(x, particles) for x in population(job["pop"])]
    ebins = EDGES * u.TeV
    settings = [(0.2, (0.0, 1.0), {}), (1.0, (0.3, 0.9), dict(min_significance=3)), (0.1, (0.0, 1.3), dict(min_signal_events=40)), (0.5, (0.2, 1.0), dict(min_excess_over_background=1.0))]
    if job["kind"] == "gh":
        for (alpha, rng, kw), effs, op in itertools.product(settings, [list(c) for k in (1, 2, 3, 4) for c in itertools.combinations(EFFS, k)], (operator.ge, operator.le)):
            with rec.case("optimize_gh_cut", job["pop"], effs, op.__name__, "alpha", alpha, "ring", rng, kw, steps=len(effs)):
                theta = theta_table([0.2, 0.1, 0.25])
                sens, cut = optimize_gh_cut(S, B, ebins, effs, theta, op=op, fov_offset_min=rng[0] * u.deg, fov_offset_max=rng[1] * u.deg, alpha=alpha, progress=False, **kw)
                s_sel = evaluate_binned_cut(S["gh_score"], S["reco_energy"], cut, op) & evaluate_binned_cut(S["theta"], S["reco_energy"], theta, operator.le)
                b_sel = evaluate_binned_cut(B["gh_score"], B["reco_energy"], cut, op)
                s, b, want = rebuild(S, B, s_sel, b_sel, theta, alpha, rng, ebins, kw)
                compare(sens, want, "sensitivity with the optimised cuts")
                scaled(s, b, sens, alpha, kw, "optimize_gh_cut")
                rec.outcome(np.round(np.nan_to_num(np.asarray(sens["relative_sensitivity"]), posinf=-1), 6).tolist())
        return
    ghs = [list(c) for c in itertools.combinations(EFFS, 2)] + ([EFFS[:3], EFFS[::-1]] if job["deep"] else [])
    for (alpha, rng, kw), g, t in itertools.product(settings, ghs[:: 1 if job["deep"] or len(job["mult"]) < 3 else 2], ([0.41, 0.83], [0.89, 0.63])):
        with rec.case("optimize_cuts", job["pop"], "multiplicity", job["mult"], "g/h", g, "theta", t, "alpha", alpha, "ring", rng, kw, steps=len(g) * len(t) * len(job["mult"])):
            sens, mc, tc, gc = optimize_cuts(S, B, ebins, job["mult"], g, t, fov_offset_min=rng[0] * u.deg, fov_offset_max=rng[1] * u.deg, alpha=alpha, progress=False, **kw)
            s_idx, s_ok = calculate_bin_indices(S["reco_energy"], ebins)
            s_sel = (evaluate_binned_cut_by_index(S["gh_score"], s_idx, s_ok, gc, operator.ge) & evaluate_binned_cut(S["theta"], S["reco_energy"], tc, operator.le)
                     & evaluate_binned_cut(S["multiplicity"], S["reco_energy"], mc, operator.ge))
            b_sel = evaluate_binned_cut(B["gh_score"], B["reco_energy"], gc, operator.ge) & evaluate_binned_cut(B["multiplicity"], B["reco_energy"], mc, operator.ge)
            s, b, want = rebuild(S, B, s_sel, b_sel, tc, alpha, rng, ebins, kw)
            compare(sens, want, "sensitivity with the optimised cuts")
            scaled(s, b, sens, alpha, kw, "optimize_cuts")
            rec.outcome(np.round(np.nan_to_num(np.asarray(sens["relative_sensitivity"]), posinf=-1), 6).tolist())
