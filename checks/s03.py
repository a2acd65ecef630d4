import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import li_ma, rel_sensitivity
from mc.util import INF, NAN, eq, need, pure, raises

SPACE = """All pairs of histogram tables with 1 and 2 bins over cell alphabets of (signal, background) = (0, small, moderate, large, nan)
with n and n_weighted different, 3 to 200 bins with all cells in rotation; optional particle columns, alphas and requirement settings, custom
significance functions; every perturbation of a single low/center/high edge and different numbers of bins; units of the edges."""
ASSUMPTIONS = ["relative accuracy 1e-6 as in S02"]

SIG = [(0, 0.0), (3, 2.5), (50, 120.0), (700, 33.0)]
BKG = [(0, 0.0), (1, 0.7), (9, 40.0), (1000, 3000.0)]
REQ = [{}, dict(min_significance=3), dict(min_signal_events=0), dict(min_excess_over_background=1.0),
       dict(min_significance=1, min_signal_events=50, min_excess_over_background=0.0)]


def jobs(tier):
    return [dict(kind="cells", alpha=a, req=i) for a in (1.0, 0.2, 0.05) for i in range(len(REQ))] + [
        dict(kind="many"), dict(kind="particles"), dict(kind="binning"), dict(kind="units")]


def hist(cells, edges=None, unit="TeV", particles=(), dtype=float):
    n = len(cells)
    edges = edges or [0.5 * 2**i for i in range(n + 1)]
    e = u.Quantity(edges, "TeV").to(unit) if unit else np.array(edges)
    t = QTable()
    t["reco_energy_low"] = e[:-1]
    t["reco_energy_high"] = e[1:]
    t["reco_energy_center"] = 0.5 * (e[:-1] + e[1:])
    t["n"] = np.array([c[0] for c in cells])
    t["n_weighted"] = np.array([c[1] for c in cells], dtype=dtype)
    for k, p in enumerate(particles):
        t[f"n_{p}"] = np.array([(c[0] + k) // 2 for c in cells])
        t[f"n_{p}_weighted"] = np.array([c[1] / (2 + k) for c in cells])
    return t


def check(res, sig, bkg, sh, bh, alpha, req, unit="TeV"):
    m = {"min_significance": "min_sig", "min_signal_events": "min_events", "min_excess_over_background": "min_excess"}
    kw = {m[k]: v for k, v in req.items()}
    n = len(sig)
    need(len(res) == n, f"{len(res)} rows")
    for c in ("low", "high", "center"):
        eq(res["reco_energy_" + c], sh["reco_energy_" + c].value, unit, c)
    rel = []
    for s, b in zip(sig, bkg):
        if s[1] != s[1] or b[1] != b[1]:
            rel.append(NAN)
        else:
            rel.append(rel_sensitivity(s[1], b[1], alpha, **kw))
    eq(res["relative_sensitivity"], rel, None, "relative_sensitivity", rtol=1e-6)

    def scaled(x, r):
        return NAN if x != x or r != r or (x == 0 and r == INF) else x * r

    eq(res["n_signal"], [scaled(s[0], r) for s, r in zip(sig, rel)], None, "n_signal", rtol=1e-6)
    nsw = [scaled(s[1], r) for s, r in zip(sig, rel)]
    eq(res["n_signal_weighted"], nsw, None, "n_signal_weighted", rtol=1e-6)
    eq(res["n_background"], [b[0] for b in bkg], None, "n_background")
    eq(res["n_background_weighted"], [b[1] for b in bkg], None, "n_background_weighted")
    for c in bh.colnames:
        if c.startswith("n_") and c != "n_weighted":
            need(c in res.colnames, f"column {c} missing")
            eq(res[c], np.asarray(bh[c]), None, c)
    got = np.asarray(res["significance"])
    for i, (s, b) in enumerate(zip(nsw, bkg)):
        if s != s or b[1] != b[1]:
            need(got[i] != got[i], f"significance[{i}] = {got[i]} for nan counts")
        else:
            eq(got[i], li_ma(s + alpha * b[1], b[1], alpha), None, f"significance[{i}]", rtol=1e-5)
    return tuple(round(r, 3) for r in rel)


def run(job, rec):
    from pyirf.sensitivity import calculate_sensitivity as f

    if job["kind"] == "cells":
        a, req = job["alpha"], REQ[job["req"]]
        sigs, bkgs = SIG + [(5, NAN)], BKG + [(5, NAN)]
        for n in (1, 2):
            cells = list(itertools.product(sigs, bkgs))
            for combo in itertools.product(cells, repeat=n):
                if n == 2 and (sigs.index(combo[0][0]) + bkgs.index(combo[0][1]) * 2 + sigs.index(combo[1][0]) + bkgs.index(combo[1][1])) % 3:
                    continue
                sig, bkg = [c[0] for c in combo], [c[1] for c in combo]
                with rec.case("signal (n, weighted)", sig, "background", bkg, "alpha", a, req, steps=n):
                    sh, bh = hist(sig), hist(bkg)
                    res = pure(f, sh, bh, a, again=n == 1, **req)
                    rec.outcome(check(res, sig, bkg, sh, bh, a, req))
        return

    if job["kind"] == "many":
        for n in (3, 5, 20, 200):
            for shift in range(4):
                for a, req in itertools.product((1.0, 0.2), REQ):
                    sig = [SIG[(i + shift) % 4] for i in range(n)]
                    bkg = [BKG[(i // 2 + 2 * shift) % 4] for i in range(n)]
                    with rec.case(n, "bins", shift, a, req, steps=n):
                        edges = [0.1 * (i + 1) for i in range(n + 1)]
                        sh, bh = hist(sig, edges), hist(bkg, edges)
                        rec.outcome(check(pure(f, sh, bh, a, again=n == 3, **req), sig, bkg, sh, bh, a, req))
        # histograms of events without weights have integer contents
        for ds, db in itertools.product((int, float, np.int32, np.float32, np.uint16), repeat=2):
            for a, req in itertools.product((1.0, 0.2, 0.35, 1), REQ):
                sig, bkg = [(x, x) for x in (2 if np.float32 in (ds, db) else 0, 1, 11, 133, 700)], [(x, x) for x in (3, 0, 11, 1007, 59)]
                with rec.case("n_weighted as", np.dtype(ds).name, np.dtype(db).name, a, req, steps=5):
                    sh, bh = hist(sig, dtype=ds), hist(bkg, dtype=db)
                    check(pure(f, sh, bh, a, again=False, **req), sig, bkg, sh, bh, a, req)
        # independent of other bins: 1-bin results equal n-bin results
        sig, bkg = [SIG[i % 4] for i in range(6)], [BKG[(i * 3 + 1) % 4] for i in range(6)]
        edges = [1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 21.0]
        full = f(hist(sig, edges), hist(bkg, edges), 0.3)
        for i in range(6):
            with rec.case("bin", i, "alone"):
                one = f(hist(sig[i:i + 1], edges[i:i + 2]), hist(bkg[i:i + 1], edges[i:i + 2]), 0.3)
                for c in full.colnames:
                    eq(u.Quantity(full[c]).value[i], u.Quantity(one[c]).value[0], None, c)
        return

    if job["kind"] == "particles":
        for names in ((), ("proton",), ("proton", "electron"), ("electron", "proton", "iron"), ("nitrogen", "n", "neutron"), ("weights", "on_off"), ("gamma", "iron_56_heavy", "weighted_x")):
            for sig_names in ((), ("gamma",), ("gamma", "proton")):
                for sig, bkg in ((SIG, BKG), (SIG[::-1], BKG), (SIG[1:], BKG[1:])):
                    for a in (1.0, 0.2):
                        with rec.case("background particles", names, "signal particles", sig_names, sig, bkg, a):
                            sh, bh = hist(sig, particles=sig_names), hist(bkg, particles=names)
                            res = pure(f, sh, bh, a)
                            check(res, sig, bkg, sh, bh, a, {})
                            rec.outcome(tuple(res.colnames))
        # custom significance function
        def naive(n_on, n_off, alpha):
            return (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1e-3)

        for a in (1.0, 0.2):
            with rec.case("custom significance function", a):
                sig, bkg = SIG[1:], BKG[1:]
                res = pure(f, hist(sig), hist(bkg), a, significance_function=naive)
                ref = [rel_sensitivity(s[1], b[1], a, sig_fun=lambda e, off, al: e / (al * off + 1e-3) ** 0.5) for s, b in zip(sig, bkg)]
                eq(res["relative_sensitivity"], ref, None, "relative_sensitivity", rtol=1e-5)
                eq(res["significance"], [s[1] * r / (a * b[1] + 1e-3) ** 0.5 for s, b, r in zip(sig, bkg, ref)], None, "significance", rtol=1e-5)
        for unit in ("", "dimensionless"):
            with rec.case("weighted counts as quantities"):
                sh, bh = hist(SIG), hist(BKG)
                for t in (sh, bh):
                    t["n_weighted"] = u.Quantity(t["n_weighted"])
                a = 0.2
                res = f(sh, bh, a)
                eq(res["relative_sensitivity"], [rel_sensitivity(s[1], b[1], a) for s, b in zip(SIG, BKG)], None, "relative_sensitivity", rtol=1e-6)
        return

    if job["kind"] == "binning":
        for n in (1, 2, 4):
            sig, bkg = SIG[:n], BKG[:n]
            for unit in ("TeV", "GeV", None):
                for which in ("signal", "background"):
                    for c in ("low", "center", "high"):
                        for i in range(n):
                            for d in (1e-6, -0.1, 3.0):
                                with rec.case(which, "edge", c, i, "off by", d, n, "bins", unit):
                                    sh, bh = hist(sig, unit=unit), hist(bkg, unit=unit)
                                    t = sh if which == "signal" else bh
                                    t["reco_energy_" + c][i] = t["reco_energy_" + c][i] * (1 + d)
                                    raises(ValueError, f, sh, bh, 0.2)
                for m in (1, 2, 3, 4):
                    if m == n:
                        continue
                    with rec.case(n, "and", m, "bins", unit):
                        raises(ValueError, f, hist(SIG[:n], unit=unit), hist(BKG[:m], unit=unit), 0.2)
            with rec.case("same bins", n):
                check(f(hist(sig), hist(bkg), 0.2), sig, bkg, hist(sig), hist(bkg), 0.2, {})
        with rec.case("TeV and m"):
            raises(ValueError, f, hist(SIG), _wrong(hist(BKG)), 0.2)
        return

    edges = [1.0, 2.0, 4.0, 8.0, 16.0]
    for su, bu in itertools.product(("TeV", "GeV"), repeat=2):
        for a in (1.0, 0.2):
            with rec.case("signal bins in", su, "background bins in", bu):
                sh, bh = hist(SIG, edges, su), hist(BKG, edges, bu)
                check(pure(f, sh, bh, a), SIG, BKG, sh, bh, a, {}, su)
    for dt in ("int32", "float32", "uint16"):
        with rec.case("dtype", dt):
            sig, bkg = [(c[0], float(int(c[1]))) for c in SIG], [(c[0], float(int(c[1]))) for c in BKG]
            sh, bh = hist(sig), hist(bkg)
            for t in (sh, bh):
                t["n"] = np.asarray(t["n"]).astype(dt)
                t["n_weighted"] = np.asarray(t["n_weighted"]).astype(dt)
            res = pure(f, sh, bh, 0.2)
            eq(res["relative_sensitivity"], [rel_sensitivity(s[1], b[1], 0.2) for s, b in zip(sig, bkg)], None, "relative_sensitivity", rtol=1e-4)


def _wrong(t):
    for c in ("low", "center", "high"):
        t["reco_energy_" + c] = u.Quantity(t["reco_energy_" + c].value, "m")
    return t
