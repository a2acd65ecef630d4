import itertools

import astropy.units as u
import numpy as np

from mc.gadf import EDGES, FINE, UNITS, arguments, cells
from mc.util import eq, need, raises

SPACE = """the three converters x all combinations of axis lengths 1..5 (thorough: 1..7) with distinct values in every cell x all combinations of units of all arguments x dtypes and memory layouts; conversions repeated and
interleaved with modification of earlier results; axes and cells are compared by axis name; every argument replaced by quantities of every wrong physical type."""
ASSUMPTIONS = ["interpolation between bins is gammapy's own business"]

FUNCS = {
    "aeff": ("create_effective_area_table_2d", "EffectiveAreaTable2D", [("ENERG", "energy_true"), ("THETA", "offset")], "m2", (0, 1)),
    "psf": ("create_psf_3d", "PSF3D", [("ENERG", "energy_true"), ("THETA", "offset"), ("RAD", "rad")], "sr-1", (0, 2, 1)),
    "edisp": ("create_energy_dispersion_2d", "EnergyDispersion2D", [("ENERG", "energy_true"), ("MIGRA", "migra"), ("THETA", "offset")], "", (0, 1, 2)),
}
AXUNIT = dict(ENERG="TeV", THETA="deg", RAD="deg", MIGRA="")


def jobs(tier):
    n = 7 if tier == "thorough" else 5
    return [dict(kind=k, what=w, n=n) for k in FUNCS for w in ("shapes", "units", "reject")] + [dict(what="sequence", n=3 if tier == "thorough" else 2)]


def build(kind, data, edges, units=None, dtype=float, layout="C"):
    _, _, axes, dunit, order = FUNCS[kind]
    units = units or [dunit] + [AXUNIT[axes[i][0]] for i in order]
    out = []
    for x, un, st in zip([data] + [edges[i] for i in order], units, [dunit] + [AXUNIT[axes[i][0]] for i in order]):
        x = (np.array(x, float) * u.Unit(st).to(un)).astype(dtype)
        if layout == "F":
            x = np.asfortranarray(x)
        elif layout == "view":
            big = np.full(tuple(2 * n for n in x.shape), -9, dtype=x.dtype)
            v = big[tuple(slice(None, None, 2) for _ in x.shape)]
            v[...] = x
            x = v
        elif layout == "readonly":
            x.setflags(write=False)
        out.append(x if un == "" else u.Quantity(x, un, copy=False, dtype=x.dtype))
    return out


def compare(irf, kind, data, edges, rtol=1e-12):
    _, cls, axes, dunit, _ = FUNCS[kind]
    need(type(irf).__name__ == cls, f"result is a {type(irf).__name__}")
    names = [n for _, n in axes]
    need(sorted(irf.axes.names) == sorted(names), f"axes {irf.axes.names}")
    for (p, n), e in zip(axes, edges):
        eq(irf.axes[n].edges, e, AXUNIT[p], f"axis {n}", rtol=rtol, atol=1e-14)
    arr = np.moveaxis(irf.quantity, [irf.axes.names.index(n) for n in names], range(len(names)))
    eq(arr, data, dunit, "data", rtol=rtol)
    eq(arr.unit.to(dunit or "") * np.asarray(arr.value), data, None, "data", rtol=rtol)


def setup(kind, lens, style=0):
    axes = FUNCS[kind][2]
    return cells(lens, style), [EDGES[p][: n + 1] for (p, _), n in zip(axes, lens)]


def run(job, rec):
    import pyirf.gammapy as pg

    if job["what"] == "sequence":
        ops = [(k, ln) for k in FUNCS for ln in ((2, 3, 1), (3, 1, 2))]
        acts = [("make", *o) for o in ops] + [("overwrite",)]
        for n in range(1, job["n"] + 2):
            for seq in itertools.product(acts, repeat=n):
                if seq[0][0] != "make":
                    continue
                with rec.case("operations", seq, steps=n):
                    live = []
                    for op in seq:
                        if op[0] == "make":
                            k, ln = op[1:]
                            data, edges = setup(k, ln[: len(FUNCS[k][2])], len(live) % 2)
                            args = build(k, data, edges)
                            live.append([getattr(pg, FUNCS[k][0])(*args), k, data.copy(), edges, args])
                        elif op[0] == "overwrite":
                            live[-1][0].data[...] = 5
                            live[-1][2] = np.full_like(live[-1][2], 5)
                    for irf, k, data, edges, _ in live:
                        compare(irf, k, data, edges)
        return
    kind = job["kind"]
    name, cls, axes, dunit, order = FUNCS[kind]
    fn = getattr(pg, name)
    if job["what"] == "shapes":
        for lens in itertools.product(range(1, job["n"] + 1), repeat=len(axes)):
            for style in (0, 1, 2):
                data, edges = setup(kind, lens, style)
                with rec.case(kind, lens, "style", style):
                    args = build(kind, data, edges)
                    compare(fn(*args), kind, data, edges)
                    compare(fn(*args), kind, data, edges)
                    for a, b in zip(args, build(kind, data, edges)):
                        eq(u.Quantity(a).value, u.Quantity(b).value, what="input")
            rec.outcome((kind, lens))
        for lens in itertools.permutations((3, 2, 1), len(axes)):
            data = np.arange(1.0, 1 + np.prod(lens)).reshape(lens) / 3 * 1.23456789e-5
            edges = [FINE[p][: n + 1] for (p, _), n in zip(axes, lens)]
            with rec.case(kind, "fine bins", lens):
                compare(fn(*build(kind, data, edges)), kind, data, edges)
        data, edges = setup(kind, (4, 3, 2)[: len(axes)])
        for v in (float("nan"), float("inf"), 0.0, -1.0, 1e300):
            for pos in range(data.size):
                d = data.copy()
                d.flat[pos] = v
                with rec.case(kind, "cell", pos, "=", v):
                    compare(fn(*build(kind, d, edges)), kind, d, edges)
    elif job["what"] == "units":
        store = [dunit] + [AXUNIT[axes[i][0]] for i in order]
        for lens in [(3, 2, 4)[: len(axes)], (2, 4, 3)[: len(axes)], (1, 1, 1)[: len(axes)]]:
            data, edges = setup(kind, lens)
            for combo in itertools.product(*[UNITS[s] if s else ("",) for s in store]):
                with rec.case(kind, lens, combo):
                    compare(fn(*build(kind, data, edges, combo)), kind, data, edges, rtol=1e-11)
                    rec.outcome((kind, combo))
            for dt in ("f8", "f4", ">f8", "i8"):
                for layout in ("C", "F", "view", "readonly"):
                    d, e = setup(kind, lens, 1)
                    if dt == "i8":
                        e = [[8 * x for x in ax] for ax in e]
                    with rec.case(kind, lens, dt, layout):
                        compare(fn(*build(kind, d, e, None, dt, layout)), kind, d, e, rtol=1e-6 if dt == "f4" else 1e-12)
    else:
        data, edges = setup(kind, (3, 2, 4)[: len(axes)])
        good = build(kind, data, edges)
        store = [dunit] + [AXUNIT[axes[i][0]] for i in order]
        bad = [u.TeV, u.deg, u.m**2, u.m, u.s, u.Unit("sr-1"), u.one, u.Unit("TeV-1"), u.sr]
        for i, st in enumerate(store):
            if st == "":
                continue
            for un in [*bad, None]:
                if un is not None and u.Unit(st).is_equivalent(un):
                    continue
                args = list(good)
                v = np.asarray(good[i].value)
                args[i] = v if un is None else v * un
                with rec.case(kind, "argument", i, "in", str(un)):
                    raises(Exception, fn, *args)
