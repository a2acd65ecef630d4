import itertools
import math
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.util import eq, layouts, need, pure, raises

SPACE = """All tables with 2 to 5 points over small energy-step and flux alphabets, crossed with the four combinations of linear/log energy and flux, three reference
energies, four energy units, flux units, constructors (direct, from_table, from_file); in each spectrum all tabulated energies, points between, and points outside on both sides are
evaluated and compared (points in all orders) with straight lines in the chosen space; the bundled DAMPE spectrum at every point of its file."""
ASSUMPTIONS = ["linear extrapolation of the first/last segment outside of the table"]

E0 = [0.1, 1.0, 1.5, 20.0, 300.0]
F = [2e-11, 5e-12, 9e-13, 8e-13, 1e-16]


def model(es, fs, log_e, log_f, x):
    tx = (lambda v: math.log(v)) if log_e else (lambda v: v)
    order = sorted(range(len(es)), key=lambda i: es[i])
    es, fs = [es[i] for i in order], [fs[i] for i in order]
    k = 0
    while k < len(es) - 2 and x > es[k + 1]:
        k += 1
    t = (tx(x) - tx(es[k])) / (tx(es[k + 1]) - tx(es[k]))
    if log_f:
        return math.exp(math.log(fs[k]) + t * (math.log(fs[k + 1]) - math.log(fs[k])))
    return fs[k] + t * (fs[k + 1] - fs[k])


def jobs(tier):
    return [dict(kind="grid", log_e=a, log_f=b, n=n) for a in (True, False) for b in (True, False) for n in ((2, 3, 4, 5))] + [dict(kind="dampe"), dict(kind="files")]


def queries(es):
    q = [es[0] / 3, *es, es[-1] * 2]
    q += [0.5 * (a + b) for a, b in zip(es[:-1], es[1:])] + [math.sqrt(a * b) for a, b in zip(es[:-1], es[1:])]
    return q


def compare(s, es, fs, log_e, log_f, qs, unit, qu="TeV", again=True):
    r = pure(s, u.Quantity(qs, "TeV").to(qu), again=again)
    need(getattr(r, "unit", None) is not None and r.unit == u.Unit(unit), f"unit {getattr(r, 'unit', None)} instead of {unit}")
    scale = max(abs(f) for f in fs)
    want = [model(es, fs, log_e, log_f, q) for q in qs]
    eq(r, want, unit, "flux", rtol=1e-8, atol=0 if log_f else 1e-12 * scale)
    # a scalar query gives the same
    eq(s(u.Quantity(qs[2], "TeV").to(qu)), want[2], unit, "flux of a scalar", rtol=1e-8, atol=0 if log_f else 1e-12 * scale)
    return r


def run(job, rec):
    from pyirf.spectral import DAMPE_P_He_SPECTRUM, TableInterpolationSpectrum

    if job["kind"] == "grid":
        log_e, log_f, n = job["log_e"], job["log_f"], job["n"]
        for ei in itertools.combinations(range(5), n):
            es = [E0[i] for i in ei]
            for fs in itertools.permutations(F, n):
                i = sum(F.index(f) * (k + 1) for k, f in enumerate(fs))
                eu = ("TeV", "GeV", "MeV", "erg")[i % 4]
                fu = ("1/(TeV s m2)", "1/(GeV cm2 s)", "1/(TeV s m2 sr)")[i % 3]
                ref = (None, 1 * u.TeV, 30 * u.GeV, 7 * u.TeV)[(i // 3) % 4]
                for how in ("direct", "table"):
                    with rec.case(how, "energy", es, eu, "flux", fs, fu, "log", log_e, log_f, "reference", str(ref), steps=n):
                        q, f = u.Quantity(es, "TeV").to(eu), u.Quantity(fs, fu)
                        kw = {} if ref is None else dict(reference_energy=ref)
                        if how == "direct":
                            if not (log_e and log_f and i % 2):
                                kw.update(log_energy=log_e, log_flux=log_f)
                            s = TableInterpolationSpectrum(q, f, **kw)
                        else:
                            t = QTable()
                            if i % 2:
                                t["flux"] = f
                                t["energy"] = q
                            else:
                                t["energy"], t["other"], t["flux"] = q, np.arange(n), f
                            s = TableInterpolationSpectrum.from_table(t, log_energy=log_e, log_flux=log_f, **kw)
                            eq(t["energy"], q.value, eu, "energy column of the table", rtol=0)
                        qs = queries(es)
                        if not log_e:
                            qs = qs + [es[0] / 100]
                        r = compare(s, es, fs, log_e, log_f, qs, fu, ("TeV", "GeV")[i % 5 == 0], again=how == "direct" and i % 3 == 0)
                        rec.outcome(np.asarray(r.value).tolist())
                        eq(q, u.Quantity(es, "TeV").to_value(eu), eu, "energies passed", rtol=0)
        # points in any order
        for ei in itertools.permutations(range(n)):
            es, fs = [E0[i] for i in ei], [F[i] for i in ei]
            for how, ref in itertools.product(("direct", "table"), (1 * u.TeV, 30 * u.GeV)):
                with rec.case("order of the points", ei, "log", log_e, log_f, how, str(ref), steps=n):
                    q, f = u.Quantity(es, "TeV"), u.Quantity(fs, "1/(TeV s m2)")
                    kw = dict(log_energy=log_e, log_flux=log_f, reference_energy=ref)
                    s = TableInterpolationSpectrum(q, f, **kw) if how == "direct" else TableInterpolationSpectrum.from_table(QTable({"energy": q, "flux": f}), **kw)
                    compare(s, es, fs, log_e, log_f, queries(sorted(es)), "1/(TeV s m2)", again=False)
                    eq(q, es, "TeV", "energies passed", rtol=0)
        # fluxes in units that make them tiny or huge
        for scale in (1e-60, 1e-40, 1e-6, 1e30):
            with rec.case("scale of the flux", scale, "log", log_e, log_f):
                fs = [f * scale for f in F[:n]]
                s = TableInterpolationSpectrum(u.Quantity(E0[:n], "TeV"), u.Quantity(fs, "1/(TeV s m2)"), log_energy=log_e, log_flux=log_f)
                compare(s, E0[:n], fs, log_e, log_f, queries(E0[:n]), "1/(TeV s m2)", again=False)
        # zero or negative flux only in linear flux, descending tables
        es = E0[:n]
        if not log_f:
            for fs in itertools.product((0.0, 1.0, 3.0), repeat=min(n, 4)):
                with rec.case("energy", es[: len(fs)], "flux", fs, "log", log_e, log_f, steps=n):
                    s = TableInterpolationSpectrum(u.Quantity(es[: len(fs)], "TeV"), u.Quantity(fs, "1/(TeV s m2)"), log_energy=log_e, log_flux=False)
                    compare(s, es[: len(fs)], list(fs), log_e, False, queries(es[: len(fs)]), "1/(TeV s m2)", again=False)
        for lname, arr in layouts(np.array([1.0, 2.0, 8.0, 64.0, 256.0][:n])):
            with rec.case("energies as", lname, "log", log_e, log_f):
                es = [1.0, 2.0, 8.0, 64.0, 256.0][:n]
                fs = [1.0, 0.5, 0.125, 2.0, 0.25][:n]
                s = TableInterpolationSpectrum(u.Quantity(arr, "TeV", dtype=arr.dtype, copy=False), u.Quantity(fs, "1/(TeV s m2)"), log_energy=log_e, log_flux=log_f)
                r = s(u.Quantity(es, "TeV"))
                eq(r, fs, "1/(TeV s m2)", "flux", rtol=1e-5 if lname == "float32" else 1e-9)
        for size in (2, 100, 3000):
            with rec.case(size, "points", "log", log_e, log_f, steps=size):
                es = np.geomspace(0.01, 100, size).tolist()
                fs = [1e-12 * (1 + (i * 7) % 5) for i in range(size)]
                s = TableInterpolationSpectrum(u.Quantity(es, "TeV").to("GeV"), u.Quantity(fs, "1/(TeV s m2)"), log_energy=log_e, log_flux=log_f)
                compare(s, es, fs, log_e, log_f, es[::7] + [0.5 * (a + b) for a, b in zip(es[:-1:11], es[1::11])] + [0.0099, 101.0], "1/(TeV s m2)")
        shapes = [(), (1,), (2, 3), (0,)]
        s = TableInterpolationSpectrum(u.Quantity(E0[:n], "TeV"), u.Quantity(F[:n], "1/(TeV s m2)"), log_energy=log_e, log_flux=log_f)
        for sh in shapes:
            with rec.case("query shape", sh):
                q = np.full(sh, 0.37) + np.arange(int(np.prod(sh))).reshape(sh)
                r = pure(s, q * u.TeV)
                need(np.shape(r) == sh, f"shape {np.shape(r)}")
                eq(r, np.array([model(E0[:n], F[:n], log_e, log_f, float(x)) for x in q.ravel()]).reshape(sh), "1/(TeV s m2)", "flux", rtol=1e-8, atol=0 if log_f else 1e-23)
        return
    if job["kind"] == "files":
        with tempfile.TemporaryDirectory() as d:
            for fmt in ("ecsv", "fits"):
                for log_e, log_f, ref in itertools.product((True, False), (True, False), (None, 30 * u.GeV)):
                    for n, eu, fu in itertools.product((2, 3, 5), ("TeV", "GeV"), ("1/(TeV s m2)", "1/(GeV cm2 s sr)")):
                        with rec.case("file", fmt, "log", log_e, log_f, "points", n, eu, fu, str(ref), steps=n):
                            path = os.path.join(d, f"t.{fmt}")
                            t = QTable({"energy": u.Quantity(E0[:n], "TeV").to(eu), "flux": u.Quantity(F[:n], fu)})
                            t.write(path, overwrite=True)
                            kw = {} if ref is None else dict(reference_energy=ref)
                            if not (log_e and log_f):
                                kw.update(log_energy=log_e, log_flux=log_f)
                            s = TableInterpolationSpectrum.from_file(path, **kw)
                            compare(s, E0[:n], F[:n], log_e, log_f, queries(E0[:n]), fu)
                            os.unlink(path)
                            compare(s, E0[:n], F[:n], log_e, log_f, queries(E0[:n]), fu, "MeV")
        return
    import pyirf

    path = os.path.join(os.path.dirname(pyirf.__file__), "resources", "dampe_p+he.ecsv")
    t = QTable.read(path)
    es, fs = t["energy"].to_value("TeV").tolist(), t["flux"].value.tolist()
    unit = t["flux"].unit
    with rec.case("DAMPE table"):
        need(len(es) > 5 and unit.is_equivalent("1/(TeV s m2 sr)"), "content of the data file")
    for i, (e, f) in enumerate(zip(es, fs)):
        for eu in ("TeV", "GeV", "erg"):
            with rec.case("DAMPE point", e, eu):
                r = pure(DAMPE_P_He_SPECTRUM, (e * u.TeV).to(eu))
                eq(r, (f * unit).to_value("1/(TeV s m2 sr)"), "1/(TeV s m2 sr)", "flux", rtol=1e-8)
        if i:
            with rec.case("DAMPE between", es[i - 1], e):
                m = math.sqrt(es[i - 1] * e)
                w = math.sqrt((fs[i - 1] * unit).to_value("1/(TeV s m2 sr)") * (f * unit).to_value("1/(TeV s m2 sr)"))
                if es[i - 1] < e:
                    eq(pure(DAMPE_P_He_SPECTRUM, m * u.TeV), w, "1/(TeV s m2 sr)", "flux", rtol=1e-8)
