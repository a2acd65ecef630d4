import itertools
import math

import astropy.units as u
import numpy as np

from mc.models import li_ma
from mc.util import INF, down, eq, layouts, need, pure, up

SPACE = """All (n_on, n_off, alpha) of a grid with 0, small integers, fractional, tiny and huge (1e15) counts, for every alpha
additionally the balance point n_on = alpha n_off, its floating point neighbours and small relative distances; every point as
scalar (float, int, numpy scalars, 0d), as element of arrays of all broadcastable shape pairs up to 3x2, in integer and single precision dtypes,
different memory layouts, dimensionless quantities; chains of increasing n_on (monotonicity). Reference: equation 17 evaluated in
rational arithmetic."""
ASSUMPTIONS = ["the test statistic agrees up to 2e-14 of (n_on + n_off) (rounding of the logarithms near the balance point)",
               "alpha is a scalar"]

COUNTS = [0, 1, 2, 3, 5, 7, 10, 17, 50, 100, 1000, 12345, 0.5, 0.1, 1.3, 1e-3, 1e-8, 99.9, 1e6, 3.7e7, 1e12, 1e15]
ALPHAS = [1.0, 0.5, 0.2, 0.1, 1 / 3, 0.05, 2.0, 5.0, 0.013, 1e-3, 100.0]


def jobs(tier):
    js = [dict(kind="scalar", alpha=a, deep=tier == "thorough") for a in ALPHAS]
    js += [dict(kind="mono", alpha=a) for a in ALPHAS]
    js += [dict(kind="arrays", alpha=a) for a in (1.0, 0.2, 1 / 3)] + [dict(kind="dtypes")]
    return js


def tol(on, off):
    return 2e-14 * (on + off)


def close(got, on, off, alpha, what="significance"):
    got = float(got)
    on, off = float(on), float(off)
    need(got == got and got >= 0 and got < INF, f"{what}({on}, {off}, {alpha}) = {got}")
    want = li_ma(on, off, alpha)
    if on < alpha * off * (1 - 1e-12):
        need(got == 0, f"{what}({on}, {off}, {alpha}) = {got}, expected 0")
        return
    t = tol(on, off)
    ok = abs(got * got - want * want) <= 2 * t + 1e-11 * want * want
    need(ok, f"{what}({on}, {off}, {alpha}) = {got}, expected {want}")


def balance(alpha, off):
    b = alpha * off
    yield from (b, up(b), down(b), b * (1 + 1e-9), b * (1 - 1e-9), b * 1.001, b * 0.999, b * 1.1)


def run(job, rec):
    from pyirf.statistics import li_ma_significance as f

    if job["kind"] == "scalar":
        a = job["alpha"]
        offs = COUNTS + ([x * 1.7 for x in COUNTS] + list(range(4, 60)) if job["deep"] else [])
        for off in offs:
            for on in COUNTS + list(balance(a, off)):
                with rec.case("n_on", on, "n_off", off, "alpha", a):
                    r = pure(f, on, off, a)
                    need(np.ndim(r) == 0 and not isinstance(r, np.ndarray), f"scalar input gives {type(r).__name__}")
                    close(r, on, off, a)
                    rec.outcome(round(float(r), 3))
                    close(f(np.float64(on), np.float64(off), np.float64(a)), on, off, a, "numpy scalars")
                    if float(on).is_integer() and float(off).is_integer() and max(on, off) < 2**62:
                        close(f(int(on), int(off), a), on, off, a, "int")
                        close(f(np.int64(on), np.int64(off), a), on, off, a, "np.int64")
                    if a == 0.2:
                        close(f(on, off), on, off, a, "default alpha: significance")
                    if a == 1.0:
                        close(f(n_on=on, n_off=off, alpha=1), on, off, 1, "int alpha")
        return

    if job["kind"] == "mono":
        a = job["alpha"]
        for off in COUNTS:
            chain = sorted(set(COUNTS + list(balance(a, off)) + [a * off * (1 + 10.0 ** -k) for k in range(1, 16)]
                               + [off * x for x in (0.01, 0.5, 0.9, 1.1, 2, 10)]))
            prev = None
            res = f(np.array(chain), off, a)
            for on, r in zip(chain, res):
                with rec.case("n_off", off, "alpha", a, "n_on", prev and prev[0], "->", on):
                    close(r, on, off, a, "array element")
                    if prev:
                        need(r * r >= prev[1] ** 2 - 4 * tol(on, off), f"decreases from {prev[1]} to {r}")
                    prev = (on, float(r))
        return

    if job["kind"] == "arrays":
        a = job["alpha"]
        shapes = [(), (1,), (2,), (3,), (1, 1), (1, 2), (3, 1), (3, 2), (2, 3), (2, 1, 2), (0,)]
        pool_on = [0, 3, 10.1, 16777217, 1000, 7, 123456789, 2]
        pool_off = [10, 0, 4, 100.0, 31, 123450011, 3.5]
        for s1, s2 in itertools.product(shapes, repeat=2):
            try:
                out = np.broadcast_shapes(s1, s2)
            except ValueError:
                continue
            for shift in range(3):
                for order in "CF":
                    n1, n2 = int(np.prod(s1)), int(np.prod(s2))
                    on = np.array([pool_on[(i + shift) % 8] for i in range(n1)], dtype=float).reshape(s1).copy(order=order)
                    off = np.array([pool_off[(2 * i + shift) % 7] for i in range(n2)], dtype=float).reshape(s2).copy(order=order)
                    with rec.case("shapes", s1, s2, "n_on", on.tolist(), "n_off", off.tolist(), "alpha", a, steps=max(1, n1 * n2)):
                        r = pure(f, on, off, a)
                        if out == ():
                            need(np.ndim(r) == 0, "0d arrays")
                        elif out != (1,) or s1 == (1,) or s2 == (1,):
                            need(np.shape(r) == out, f"shape {np.shape(r)}, expected {out}")
                        b1, b2 = np.broadcast_to(on, out), np.broadcast_to(off, out)
                        for idx in np.ndindex(out):
                            close(np.asarray(r)[idx] if out != () else r, b1[idx], b2[idx], a, f"element {idx}")
                    if s2 == ():
                        with rec.case("array and scalar", s1, on.tolist(), float(off), steps=max(1, n1)):
                            r = pure(f, on, float(off), a)
                            r2 = pure(f, on.tolist(), int(off), a) if s1 else r
                            for idx in np.ndindex(s1):
                                close(np.asarray(r)[idx] if s1 else r, on[idx], float(off), a, f"element {idx}")
                                close(np.asarray(r2)[idx] if s1 else r, on[idx], int(off), a, f"list element {idx}")
        for n in (100, 1000, 50000):
            with rec.case("arrays of", n, steps=n):
                on = np.array([(i * 37) % 101 + (i % 3) * 0.25 for i in range(n)])
                off = np.array([(i * 11) % 97 + 1.0 for i in range(n)])
                r = f(on, off, a)
                for i in range(0, n, max(1, n // 3000)):
                    close(r[i], on[i], off[i], a, f"element {i}")
        return

    vals_on = np.array([0.0, 3.0, 100.0, 40.0, 7.0, 100000.0, 0.0])
    vals_off = np.array([10.0, 0.0, 60.0, 200.0, 1.0, 90000.0, 0.0])
    for (l1, on), (l2, off) in itertools.product(layouts(vals_on), layouts(vals_off)):
        for a in ALPHAS:
            with rec.case("layouts", l1, l2, "alpha", a, steps=7):
                r = pure(f, on, off, a)
                need(r.dtype == np.float64, f"dtype {r.dtype}")
                for i in range(7):
                    close(r[i], vals_on[i], vals_off[i], a, f"element {i}")
    for dt in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "uint64", "float32", "float16"):
        top = min(float(np.iinfo(dt).max) if dt[0] in "iu" else 60000.0, 2e9)
        on = np.array([0, 1, 3, 100, top, top, 0], dtype=dt)
        off = np.array([1, 0, 100, 5, top, 7, 0], dtype=dt)
        for a in ALPHAS:
            with rec.case("dtype", dt, "alpha", a, steps=6):
                r = f(on, off, a)
                for i in range(7):
                    close(r[i], float(on[i]), float(off[i]), a, f"element {i}")
                    close(f(on[i], off[i], a), float(on[i]), float(off[i]), a, f"scalar {i}")
                    close(f(on[i], float(off[i]), a), float(on[i]), float(off[i]), a, f"scalar {i}")
    for a in (1.0, 0.2):
        with rec.case("dimensionless quantities", a):
            r = f(u.Quantity(vals_on), u.Quantity(vals_off), a)
            for i in range(7):
                close(r[i], vals_on[i], vals_off[i], a, f"element {i}")
