import itertools

import astropy.units as u
import numpy as np

from mc.util import INF, eq, need, pure

SPACE = """All dispersions with 1 to 4 true-energy bins, 1 to 4 migration bins and 1 to 3 offset bins whose slices take every content of a small count alphabet in one position
(other slices rotate through it, empty slices included), over uniform/irregular migration edges and linear/logarithmic energy edges; new true-energy edges: the same, every
contiguous sub-range and every merge of the old bins, refinements and shifted bins; new reco edges: for every new true bin the migration edges times its centre and all their
subsets, covering, partly covering, non-covering, infinite; all unit combinations."""
ASSUMPTIONS = ["values agree up to 1e-9; the distribution inside of the migration range is only prescribed at migration edges (the spline is free in between)",
               "new true-energy bins that cut old bins are only used with non-empty old bins"]

TRUE = {1: [2.0, 8.0], 2: [1.0, 2.0, 5.0], 3: [0.1, 1.0, 2.0, 10.0], 4: [1.0, 2.0, 3.0, 4.0, 5.0]}
MIGRA = {1: [0.5, 1.5], 2: [0.5, 1.0, 2.0], 3: [0.2, 0.9, 1.1, 3.0], 4: [0.0, 0.5, 1.0, 1.5, 2.0]}


def jobs(tier):
    js = [dict(kind="grid", nt=nt, nm=nm, nf=nf, deep=tier == "thorough") for nt in (1, 2, 3, 4) for nm in (1, 2, 3, 4) for nf in (1, 2, 3)]
    return js + [dict(kind="units", nt=nt, nm=nm) for nt in (1, 2, 3, 4) for nm in (1, 2, 3, 4)] + [dict(kind="large")]


def normalise(counts, migra):
    counts = np.array(counts, dtype=float)
    d = counts / np.diff(migra)[None, :, None]
    s = counts.sum(axis=1, keepdims=True)
    return np.where(s > 0, d / np.where(s > 0, s, 1), 0.0)


def expected_row(disp, migra, true, lo, hi):
    """probabilities per migration bin and offset of a new true bin that is a union of old bins, None otherwise"""
    if lo in true and hi in true:
        p = (disp * np.diff(migra)[None, :, None])[true.index(lo):true.index(hi)].sum(axis=0)
        s = p.sum(axis=0)
        return np.where(s > 0, p / np.where(s > 0, s, 1), 0.0)
    return None


def compare(disp, true, migra, new_true, reco, units=("TeV", "TeV", "TeV"), again=False):
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration

    q = u.Quantity(true, "TeV").to(units[0]), np.array(migra), u.Quantity(new_true, "TeV").to(units[1]), u.Quantity(reco, "TeV").to(units[2])
    res = pure(energy_dispersion_to_migration, disp, *q, again=again)
    shape = (len(new_true) - 1, len(reco) - 1, disp.shape[2])
    need(np.shape(res) == shape, f"shape {np.shape(res)}, expected {shape}")
    need(not hasattr(res, "unit") or res.unit == u.one, "matrix has a unit")
    res = np.asarray(res)
    need(np.isfinite(res).all(), "matrix is not finite")
    for i, (lo, hi) in enumerate(zip(new_true[:-1], new_true[1:])):
        c = 0.5 * (lo + hi)
        row = expected_row(disp, migra, true, lo, hi)
        edges = [m * c for m in migra]
        reach = [(a, b) for a, b in zip(reco[:-1], reco[1:])]
        for j, (a, b) in enumerate(reach):
            if b < edges[0] * (1 - 1e-9) or a > edges[-1] * (1 + 1e-9):
                need(bool((np.abs(res[i, j]) <= 1e-12).all()), f"row {i}: reco bin {a}..{b} is out of reach of {edges[0]}..{edges[-1]} but has {res[i, j]}")
        empty = row is not None and row.sum(axis=0) == 0
        want_sum = 1.0 if row is None else np.where(empty, 0.0, 1.0)
        if reco[0] <= edges[0] * (1 + 1e-12) and reco[-1] >= edges[-1] * (1 - 1e-12):
            s = res[i].sum(axis=0)
            need(bool((np.abs(s - want_sum) < 1e-9).all()), f"row {i} covers the migration range but sums to {s} (expected {want_sum})")
        if row is None:
            continue
        need(bool((np.abs(res[i][:, empty]) < 1e-9).all()), f"row {i}: empty true energy bin has content {res[i]}")
        # sums between reco edges that are (up to rounding) migration edges times the bin centre
        pos = [None] * len(reco)
        for j, r in enumerate(reco):
            for k, e in enumerate(edges):
                if abs(r - e) <= 1e-12 * max(e, 1e-3):
                    pos[j] = k
            if r <= edges[0]:
                pos[j] = 0
            if r >= edges[-1]:
                pos[j] = len(edges) - 1
        known = [j for j in range(len(reco)) if pos[j] is not None]
        for a, b in zip(known[:-1], known[1:]):
            want = row[pos[a]:pos[b]].sum(axis=0)
            got = res[i, a:b].sum(axis=0)
            need(bool((np.abs(got - want) < 1e-9).all()), f"row {i}, reco {reco[a]}..{reco[b]}: probability {got}, expected {want}")
    return res


def new_true_edges(true):
    yield true
    for k in range(2, len(true) + 1):
        for c in itertools.combinations(true, k):
            if list(c) != true:
                yield list(c)


def reco_edges(c, migra):
    e = [m * c for m in migra]
    yield e
    for k in range(2, len(e)):
        for s in itertools.combinations(e, k):
            yield list(s)
    lo = [] if e[0] == 0 else [0.0]
    yield lo + e + [e[-1] * 2, INF]
    yield [1e-4, e[1], e[-1] * 3] if e[1] > 1e-4 else e
    yield [e[0] + 0.3 * (e[1] - e[0]), e[1], e[-1] * 1.5]
    yield [e[-1] * 1.01, e[-1] * 2, e[-1] * 30]
    mid = [0.5 * (a + b) for a, b in zip(e[:-1], e[1:])]
    yield sorted(e + mid)


def contents(nm):
    al = [0, 1, 4] if nm < 4 else [0, 1]
    return list(itertools.product(al, repeat=nm)) + ([(0, 0, 7, 1), (3, 1, 0, 2)] if nm == 4 else [])


def run(job, rec):
    if job["kind"] == "large":
        for nt, nm, nf in ((10, 20, 2), (20, 50, 3), (3, 100, 1), (5, 7, 10)):
            with rec.case("size", nt, nm, nf, steps=nt * nm):
                true, migra = np.geomspace(0.1, 100, nt + 1).tolist(), np.linspace(0.2, 5, nm + 1).tolist()
                counts = (np.arange(nt * nm * nf).reshape(nt, nm, nf) * 37) % 11
                disp = normalise(counts, migra)
                reco = np.geomspace(0.01, 1000, 3 * nt).tolist()
                compare(disp, true, migra, true, reco, again=True)
                compare(disp, true, migra, true[::2], reco)
                compare(disp, true, migra, true, [m * 0.5 * (true[1] + true[2]) for m in migra])
        # many offset bins, with some of the rows empty
        for nf, nt, hole in itertools.product((4, 5, 6, 7, 9, 12, 20), (1, 2, 4), range(4)):
            with rec.case("offset bins", nf, nt, "holes", hole, steps=nf):
                true, migra = np.geomspace(0.1, 100, nt + 1).tolist(), [0.25, 0.5, 1.0, 2.0]
                counts = (np.arange(nt * 3 * nf).reshape(nt, 3, nf) * 7) % 5 + 1
                for i, k in itertools.product(range(nt), range(nf)):
                    if hole and (2 * i + k) % 5 < hole:
                        counts[i, :, k] = 0
                disp = normalise(counts, migra)
                for new in [true] + ([true[::2], true[1:]] if nt > 1 else []):
                    for i in range(len(new) - 1):
                        compare(disp, true, migra, new, [m * 0.5 * (new[i] + new[i + 1]) for m in migra])
                    compare(disp, true, migra, new, [1e-3, 0.1, 1.0, 30.0, 1e4])
        # new bins that are very small parts of the old ones
        for n, (nm, nf) in itertools.product((50, 1000, 5000), ((3, 1), (4, 2))):
            with rec.case("slices", n, nm, nf, steps=n):
                true, migra = [1.0, 2.0, 5.0], MIGRA[nm]
                disp = normalise((np.arange(2 * nm * nf).reshape(2, nm, nf) * 3) % 5 + 1, migra)
                new = np.linspace(1.0, 5.0, n + 1).tolist()
                compare(disp, true, migra, new, [1e-4, 0.1, 1.0, 2.0, 3.7, 5.0, 100.0])
        return
    true, migra = TRUE[job["nt"]], MIGRA[job["nm"]]
    cs = contents(job["nm"])
    if job["kind"] == "units":
        full = [c for c in cs if sum(c)]
        disp = normalise(np.moveaxis(np.array([[full[(3 * i + 5 * k) % len(full)] for k in range(2)] for i in range(len(true) - 1)]), 1, 2), migra)
        for nt in (true, true[-2:], [true[0], true[-1]], [true[0] * 1.2, 0.5 * (true[0] + true[-1]), true[-1] * 0.9]):
            for i in range(len(nt) - 1):
                for reco in reco_edges(0.5 * (nt[i] + nt[i + 1]), migra):
                    for units in itertools.product(("TeV", "GeV"), ("TeV", "MeV"), ("TeV", "GeV", "erg")):
                        with rec.case("units", units, true, migra, "new true", nt, "reco", reco, steps=3):
                            compare(disp, true, migra, nt, reco, units)
        # memory layouts, integer-like values
        for name, arr in (("fortran", np.asfortranarray(disp)), ("float32", disp.astype("f4")), ("strided", np.repeat(disp, 2, axis=0)[::2]), ("bigendian", disp.astype(">f8"))):
            with rec.case("layout", name):
                tol = 1e-9
                from pyirf.irf.energy_dispersion import energy_dispersion_to_migration as f

                reco = u.Quantity(list(reco_edges(1.5, migra))[-1], "TeV")
                a = f(disp, true * u.TeV, np.array(migra), true * u.TeV, reco)
                eq(pure(f, arr, true * u.TeV, np.array(migra), true * u.TeV, reco), a, "", "matrix", rtol=1e-4 if name == "float32" else tol, atol=1e-5 if name == "float32" else tol)
        return
    nf = job["nf"]
    nts = list(new_true_edges(true))
    if nf == 2:
        # bins cutting old bins, only for non-empty rows
        nts += [[true[0], 0.5 * (true[0] + true[1]), true[1]], [true[0] * 1.1, min(true[1] * 1.1, 0.7 * true[-1]), true[-1]]]
    for n, c in enumerate(cs):
        for pos in itertools.product(range(len(true) - 1), range(nf)):
            counts = np.array([[cs[(n * 5 + 7 * i + 3 * k + 1) % len(cs)] for k in range(nf)] for i in range(len(true) - 1)])
            counts[pos] = c
            counts = np.moveaxis(counts, 1, 2)
            disp = normalise(counts, migra)
            for m, nt in enumerate(nts):
                cuts_old = not set(nt) <= set(true)
                if cuts_old and (counts.sum(axis=1) == 0).any():
                    continue
                if not job["deep"] and (5 * n + m + 3 * pos[0] + 2 * pos[1]) % {1: 1, 2: 2, 3: 7, 4: 23}[job["nt"]]:
                    continue
                for i in range(len(nt) - 1):
                    for r, reco in enumerate(reco_edges(0.5 * (nt[i] + nt[i + 1]), migra)):
                        if not job["deep"] and r and (r + n + i) % 3:
                            continue
                        with rec.case("true", true, "migration", migra, "content", counts.tolist(), "new true", nt, "reco", reco, steps=2):
                            res = compare(disp, true, migra, nt, reco, again=r == 0 and n % 9 == 0)
                            rec.outcome(np.round(res, 6).tolist())
