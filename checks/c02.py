import itertools
import operator

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

from mc.models import OVER, UNDER, bin_of
from mc.util import INF, NAN, down, eq, layouts, multisets, need, orders, pump, pure, raises, up

SPACE = """Event histories (multisets up to depth 3, thorough 4, several orders) over (bin position: below, edges, ulp neighbours,
inside, last edge, above, nan) x (value: below, ulp below, equal, ulp above, above the cut of that bin and of its neighbour, nan) for cut
tables with 1, 2 and 4 bins with rising, falling, equal and nan/inf cuts and all six comparison operators plus a custom one;
evaluate_binned_cut_by_index with any valid mask; pumped histories up to 70000 events; units and layouts. compare_irf_cuts on
all lists of 0..3 tables from a family differing in one entry, unit, number of bins or column."""

EDGES = {"one": [1.0, 2.0], "two": [0.5, 1.0, 4.0], "four": [0.0, 1.0, 2.0, 4.0, 8.0]}
CUTS = {"one": [[0.5], [INF], [NAN]], "two": [[0.5, 2.0], [2.0, 0.5], [1.0, 1.0], [NAN, 0.5]],
        "four": [[1.0, 2.0, 3.0, 4.0], [4.0, 0.5, 4.0, 0.25], [1.0, 1.0, 1.0, 2.0]]}
OPS = dict(lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne)


def jobs(tier):
    deep = tier == "thorough"
    js = [dict(kind="hist", edges=e, cut=i, part=p, deep=deep) for e in EDGES for i in range(len(CUTS[e])) for p in range(2)]
    return js + [dict(kind="pump"), dict(kind="units"), dict(kind="index"), dict(kind="compare"), dict(kind="reject")]


def cut_table(edges, cut, bunit=None, vunit=None, cls=QTable):
    t = cls()
    b = np.array(edges) if bunit is None else u.Quantity(edges, bunit)
    t["low"] = b[:-1]
    t["high"] = b[1:]
    t["center"] = 0.5 * (b[:-1] + b[1:])
    t["n_events"] = np.arange(len(edges) - 1)
    t["cut"] = np.array(cut) if vunit is None else u.Quantity(cut, vunit)
    return t


def expect(hist, edges, cut, op):
    res = []
    for x, v in hist:
        b = bin_of(x, edges)
        res.append(False if b in (UNDER, OVER) else bool(op(v, cut[b])))
    return res


def mask(got, want, hist, what="result"):
    got = np.asarray(got)
    need(got.dtype == bool, f"{what}: dtype {got.dtype}")
    need(got.shape == (len(want),), f"{what}: shape {got.shape}")
    for h, g, w in zip(hist, got.tolist(), want):
        need(g == w, lambda: f"{what}: event (bin value, value) {h} selected={g}, expected {w}")


def run(job, rec):
    from pyirf.cuts import compare_irf_cuts, evaluate_binned_cut, evaluate_binned_cut_by_index
    from pyirf.binning import calculate_bin_indices

    if job["kind"] == "hist":
        edges, cut = EDGES[job["edges"]], CUTS[job["edges"]][job["cut"]]
        ct = cut_table(edges, cut)
        al = []
        pos = [down(edges[0]), edges[-1], NAN]
        for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
            for x in (a, down(b), 0.5 * (a + b)):
                for v in dict.fromkeys((cut[i], up(cut[i]), down(cut[i]), cut[(i + 1) % len(cut)], 100.0, -1.0)):
                    al.append((x, v))
        al += [(p, v) for p in pos for v in (-1.0, cut[0], 100.0)] + [(0.5 * (edges[0] + edges[1]), NAN)]
        if len(al) > 40 and not job["deep"]:
            al = al[::2] + al[-9:]
        depth = 3 if len(al) <= 24 else 2
        for k, hist in enumerate(list(multisets(al, depth + job["deep"]))[job["part"] :: 2]):
            name = list(OPS)[k % 6]
            for i, order in enumerate(orders(hist)):
                for opname in OPS if len(hist) < 2 else (name, list(OPS)[(k + 1 + i) % 6]):
                    op = OPS[opname]
                    with rec.case("events (bin value, value)", order, "edges", edges, "cut", cut, opname, states=int(i == 0), steps=max(1, len(hist))):
                        x = np.array([h[0] for h in order], dtype=float)
                        v = np.array([h[1] for h in order], dtype=float)
                        res = pure(evaluate_binned_cut, v, x, ct, op, again=k % 9 == 0)
                        want = expect(order, edges, cut, op)
                        mask(res, want, order)
                        idx, valid = calculate_bin_indices(x, np.array(edges))
                        mask(pure(evaluate_binned_cut_by_index, v, idx, valid, ct, op, again=k % 9 == 0), want, order, "by index")
                        rec.outcome(tuple(want))
        return

    if job["kind"] == "pump":
        for e in EDGES:
            edges = EDGES[e]
            pos = []
            for x in edges:
                pos += [x, up(x), down(x)]
            pos += [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])] + [NAN, edges[0] - 1, edges[-1] + 1]
            for cut in CUTS[e]:
                al = [(x, v) for x in pos for v in cut + [up(cut[0]), down(cut[0]), 0.7, 1.5, 3.5]]
                for n in (7, 40, 200, 5000, 70000):
                    hist = pump(al, n)
                    for opname, op in OPS.items():
                        with rec.case("pumped to", n, edges, cut, opname, steps=n):
                            x, v = np.array([h[0] for h in hist]), np.array([h[1] for h in hist])
                            mask(pure(evaluate_binned_cut, v, x, cut_table(edges, cut), op, again=n < 1000), expect(hist, edges, cut, op), hist)
        # tables with gaps, events in a gap are in no bin
        for edges in ([0.5, 1.0, 4.0, 8.0, 9.0], [float(i) for i in range(8)]):
            n = len(edges) - 1
            pos = [f(x) for x in edges for f in (down, float, up)] + [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])] + [NAN, -1.0, 100.0]
            for keep in (k for m in range(1, n + 1) for k in itertools.combinations(range(n), m)):
                for bu, vu in ((None, None), ("TeV", "deg")):
                    with rec.case("edges", edges, "bins kept in the table", keep, bu, vu, steps=len(pos)):
                        cut = [0.25 * (i + 1) for i in range(n)]
                        hist = [(x, v) for x in pos for v in (0.0, 0.3, 0.5, 0.6, 2.0)]
                        x, v = np.array([h[0] for h in hist]), np.array([h[1] for h in hist])
                        x, v = (x, v) if bu is None else (u.Quantity(x, bu), u.Quantity(v, vu))
                        for op in (operator.le, operator.gt):
                            want = [bin_of(a, edges) in keep and op(b, cut[bin_of(a, edges)]) for a, b in hist]
                            mask(pure(evaluate_binned_cut, v, x, cut_table(edges, cut, bu, vu)[list(keep)], op), want, hist)
        # many bins
        for n in (100, 1000, 40000):
            edges = [float(i) for i in range(n + 1)]
            cut = [float((i * 37) % 11) for i in range(n)]
            hist = [((i * 17) % (n + 2) - 0.5, float(i % 11)) for i in range(3 * n if n < 10000 else n)]
            for opname, op in OPS.items():
                with rec.case(n, "bins", opname, steps=len(hist)):
                    x, v = np.array([h[0] for h in hist]), np.array([h[1] for h in hist])
                    want = [0 <= a < n and bool(op(b, cut[int(a)])) for a, b in hist]
                    mask(evaluate_binned_cut(v, x, cut_table(edges, cut), op), want, hist)
        return

    if job["kind"] == "units":
        hist = [(x, v) for x in (0.4, 0.6, 0.99, 1.01, 3.9, 4.1, 9.0) for v in (0.1, 0.49, 0.51, 1.9, 2.1, 10.0)]
        edges = EDGES["two"]
        for cut in ([0.5, 2.0], [2.0, 0.5]):
            for bu, xu in itertools.product((None, "TeV", "GeV", "erg"), ("TeV", "GeV", "erg")):
                for cu, vu in itertools.product((None, "deg", "rad", "arcmin"), ("deg", "rad", "arcmin")):
                    for opname in ("le", "gt"):
                        with rec.case("bins", bu, "bin values", xu, "cut", cu, "values", vu, opname, cut, steps=len(hist)):
                            ct = cut_table(edges, cut, None if bu is None else "TeV", None if cu is None else "deg")
                            if bu:
                                for c in ("low", "high", "center"):
                                    ct[c] = ct[c].to(bu)
                            if cu:
                                ct["cut"] = ct["cut"].to(cu)
                            x = np.array([h[0] for h in hist])
                            v = np.array([h[1] for h in hist])
                            x = x if bu is None else u.Quantity(x, "TeV").to(xu)
                            v = v if cu is None else u.Quantity(v, "deg").to(vu)
                            mask(pure(evaluate_binned_cut, v, x, ct, OPS[opname]), expect(hist, edges, cut, OPS[opname]), hist)
        hist = [(x, v) for x in (0.0, 1.0, 2.0, 3.0, 5.0, 8.0) for v in (1.0, 2.0, 3.0, 0.0)]
        for (l1, v), (l2, x) in itertools.product(layouts(np.array([h[1] for h in hist])), layouts(np.array([h[0] for h in hist]))):
            for cut in CUTS["four"]:
                for opname, op in OPS.items():
                    with rec.case("layouts", l1, l2, cut, opname, steps=len(hist)):
                        mask(pure(evaluate_binned_cut, v, x, cut_table(EDGES["four"], cut), op), expect(hist, EDGES["four"], cut, op), hist)
                        t = QTable()
                        t.add_column(v, name="v")
                        t.add_column(x, name="x")
                        mask(evaluate_binned_cut(t["v"], t["x"], cut_table(EDGES["four"], cut), op), expect(hist, EDGES["four"], cut, op), hist, "columns")
        return

    if job["kind"] == "index":
        # any index array / valid mask combination for up to 4 events
        edges, cut = EDGES["two"], [0.5, 2.0]
        ct = cut_table(edges, cut)
        for n in (0, 1, 2, 3, 4):
            for idx in itertools.product((UNDER, 0, 1, OVER), repeat=n):
                for drop in itertools.product((True, False), repeat=n) if n < 4 else [(True,) * n]:
                    valid = [d and i not in (UNDER, OVER) for i, d in zip(idx, drop)]
                    for values in ([0.5, 2.0, 0.1, 7.0][:n], [1.0] * n):
                        for opname, op in (("ge", operator.ge), ("lt", operator.lt), ("custom", lambda a, b: (a - b) ** 2 < 0.3)):
                            with rec.case("index", idx, "valid", valid, "values", values, opname, steps=max(n, 1)):
                                res = evaluate_binned_cut_by_index(np.array(values), np.array(idx, dtype=np.int64), np.array(valid, dtype=bool), ct, op)
                                want = [bool(ok and op(v, cut[i])) for v, i, ok in zip(values, idx, valid) if True] if all(
                                    ok is False or i in (0, 1) for i, ok in zip(idx, valid)) and False else [
                                    bool(op(v, cut[i])) if ok else False for v, i, ok in zip(values, idx, valid)]
                                mask(res, want, list(zip(idx, values)))
        return

    if job["kind"] == "compare":
        base = lambda **k: cut_table([1.0, 2.0, 4.0, 8.0], [0.5, 1.0, 1.5], "TeV", "deg", **k)  # noqa: E731
        fam = {"base": base(), "same": base()}
        for col in ("low", "high", "center", "cut", "n_events"):
            for row in range(3):
                for d in (1, 1e-6) if col != "n_events" else (1,):
                    t = base()
                    t[col][row] = t[col][row] + d * (t[col].unit if getattr(t[col], "unit", None) is not None else 1)
                    fam[f"{col}[{row}]+{d}"] = t
        t = base()
        t["cut"] = u.Quantity(t["cut"].value, "rad")
        fam["rad"] = t
        t = base()
        t["cut"] = t["cut"].value
        fam["nounit"] = t
        t = base()
        t["low"] = u.Quantity(t["low"].value, "GeV")
        fam["lowGeV"] = t
        fam["shorter"] = base()[:2]
        fam["one"] = base()[:1]
        fam["longer"] = cut_table([1.0, 2.0, 4.0, 8.0, 9.0], [0.5, 1.0, 1.5, 1.5], "TeV", "deg")
        fam["2d"] = base()
        fam["2d"]["cut"] = u.Quantity([[0.5, 0.5], [1.0, 1.0], [1.5, 1.5]], "deg")
        fam["2d_other"] = base()
        fam["2d_other"]["cut"] = u.Quantity([[0.5, 0.5], [1.0, 1.25], [1.5, 1.5]], "deg")
        t = base()
        t.remove_column("n_events")
        fam["nocol"] = t
        t = base()
        t.rename_column("cut", "gh_cut")
        fam["renamed"] = t
        t = base()
        t["cut"] = u.Quantity([60.0, 120.0, 240.0], "arcmin")
        u1 = base()
        u1["cut"] = u.Quantity([1.0, 2.0, 4.0], "deg")
        with rec.case("equal cuts in deg and arcmin"):
            need(compare_irf_cuts([u1, t]) is True or compare_irf_cuts([u1, t]) == True, "1 deg and 60 arcmin differ")  # noqa: E712
        ident = {"base": 0, "same": 0}
        for i, k in enumerate(fam):
            ident.setdefault(k, i)
        with rec.case("trivial lists"):
            need(bool(compare_irf_cuts([])) is True, "empty list")
            for k, t in fam.items():
                need(bool(compare_irf_cuts([t])) is True, "one table")
        for a, b in itertools.product(fam, repeat=2):
            with rec.case("compare", a, b):
                res = pure(compare_irf_cuts, [fam[a], fam[b]])
                need(isinstance(res, (bool, np.bool_)), f"returned {res!r}")
                need(bool(res) == (ident[a] == ident[b]), f"{a} vs {b}: {res}")
                rec.outcome(bool(res))
        few = ["base", "same", "cut[1]+1", "low[0]+1", "high[2]+1e-06", "rad", "shorter", "2d", "longer", "cut[2]+1e-06", "n_events[0]+1"]
        for names in itertools.product(few, repeat=3):
            with rec.case("compare", names):
                res = compare_irf_cuts([fam[n].copy() for n in names])
                need(bool(res) == (len({ident[n] for n in names}) == 1), f"{names}: {res}")
        for n in (4, 6, 9):
            for odd in range(n):
                with rec.case("list of", n, "tables, differing", odd):
                    tabs = [base() for _ in range(n)]
                    need(bool(compare_irf_cuts(tabs)) is True, "identical tables")
                    tabs[odd]["cut"][1] += 0.25 * u.deg
                    need(bool(compare_irf_cuts(tabs)) is False, f"table {odd} differs")
        return

    # reject
    for e in EDGES:
        edges, cut = EDGES[e], CUTS[e][0]
        for cls in (Table, dict, None):
            for n in (0, 1, 3):
                with rec.case("cut table is a", cls, edges, n, "events"):
                    bad = cut_table(edges, cut, cls=Table) if cls is Table else {} if cls is dict else None
                    v = np.linspace(0, 1, n)
                    raises(ValueError, evaluate_binned_cut, v, v + 1, bad, operator.le)
                    raises(ValueError, evaluate_binned_cut_by_index, v, np.zeros(n, int), np.ones(n, bool), bad, operator.le)
    with rec.case("unit mismatch between values and cut"):
        ct = cut_table(EDGES["two"], [0.5, 1.0], None, "deg")
        raises(u.UnitsError, evaluate_binned_cut, u.Quantity([0.3], "TeV"), np.array([0.7]), ct, operator.le)
    with rec.case("unit mismatch between bin values and bins"):
        raises(TypeError, evaluate_binned_cut, np.array([0.3]), u.Quantity([0.7], "TeV"), cut_table(EDGES["two"], [0.5, 1.0]), operator.le)
