import itertools

import numpy as np

from mc.models import rel_sensitivity
from mc.util import INF, NAN, eq, layouts, need, pure, raises

SPACE = """All (signal, n_off, alpha) of a grid (signal 1e-9..1e6 incl. no and negative excess, n_off 0..1e7 incl. the solver switch at 1)
crossed with all (min_significance, min_signal_events, min_excess_over_background) so that each requirement is the binding one,
plus ties constructed from the reference solution; nan and negative counts in every position; each argument as scalar or
array for all broadcast shapes up to 3x2; custom significance functions; dtypes and layouts. Reference: bisection on a
well-conditioned Li & Ma formula."""
ASSUMPTIONS = ["relative accuracy 1e-6 (the root finder of the implementation has an absolute tolerance of 2e-12), relative fluxes below 1e-4 are not explored",
               "the excess is computed from n_on by subtraction, cases where it is pure rounding noise are not explored"]

SIGNAL = [1e-9, 1e-4, 0.05, 1.0, 3.7, 12.0, 40.0, 150.0, 1e3, 2e4, 1e6]
NOFF = [0.0, 0.01, 0.5, 1.0, 1.0001, 2.0, 10.0, 100.0, 3e3, 1e5, 1e7]
ALPHA = [1.0, 0.5, 0.2, 0.05, 2.0, 1 / 3]
REQ = [(5, 10, 0.05), (5, 0, 0), (3, 0, 0.0), (5, 100, 0.0), (5, 0, 0.5), (1, 10, 0.05), (0.3, 0, 0), (8, 1, 2.0), (20, 10, 0.01)]


def jobs(tier):
    js = [dict(kind="grid", alpha=a, deep=tier == "thorough") for a in ALPHA]
    return js + [dict(kind="tie"), dict(kind="bad"), dict(kind="shape"), dict(kind="custom"), dict(kind="dtype")]


def one(f, sig, off, alpha, req=None, what=""):
    on = sig + alpha * off
    true_sig = on - alpha * off
    if req is None:
        r, want = pure(f, on, off, alpha, again=False), rel_sensitivity(true_sig, off, alpha)
    else:
        r = pure(f, on, off, alpha, *req, again=False)
        want = rel_sensitivity(true_sig, off, alpha, *req)
    if want < 1e-4:
        return None
    eq(r, want, None, f"relative_sensitivity(n_on={on}, n_off={off}, alpha={alpha}, {req}) {what}", rtol=1e-6)
    return float(r)


def run(job, rec):
    from pyirf.sensitivity import relative_sensitivity as f
    from pyirf.statistics import li_ma_significance

    if job["kind"] == "grid":
        a = job["alpha"]
        sigs = SIGNAL + ([s * 2.3 for s in SIGNAL] if job["deep"] else [])
        for s, off in itertools.product(sigs, NOFF + ([o * 1.9 for o in NOFF] if job["deep"] else [])):
            if s < 1e-6 * a * off:
                continue
            with rec.case("signal", s, "n_off", off, "alpha", a):
                one(f, s, off, a)
            for req in REQ:
                with rec.case("signal", s, "n_off", off, "alpha", a, "requirements", req):
                    r = one(f, s, off, a, req)
                    if r is None:
                        continue
                    rec.outcome(round(r, 3))
                    # all requirements are met, at least one exactly
                    sig = float(li_ma_significance(s * r + a * off, off, a))
                    need(sig >= req[0] * (1 - 1e-5), f"significance {sig}")
                    need(s * r >= req[1] * (1 - 1e-6), "too few signal events")
                    need(s * r >= req[2] * a * off * (1 - 1e-6), "too little excess over background")
                    kw = dict(min_significance=req[0], min_signal_events=req[1], min_excess_over_background=req[2])
                    eq(f(n_on=s + a * off, n_off=off, alpha=a, **kw), r, None, "keywords", rtol=1e-9)
        for off in NOFF:
            for sig in (0.0, -0.5, -1.0):
                on = a * off + sig
                if on < 0:
                    continue
                with rec.case("no excess", sig, "n_off", off, "alpha", a):
                    r = f(on, off, a)
                    need(r == INF, f"{r}")
        return

    if job["kind"] == "tie":
        for s, off, a in itertools.product((3.7, 40.0, 1e3), (0.0, 2.0, 10.0, 3e3), (1.0, 0.2)):
            base = rel_sensitivity(s, off, a, 5, 0, 0)
            for k in (0.5, 0.999, 1.0, 1.001, 2.0):
                ev = base * s * k
                exc = ev / (a * off) if off else 0.3
                for req in ((5, ev, 0), (5, 0, exc), (5, ev, exc), (5, ev * 0.9, exc), (5, ev, exc * 0.9)):
                    with rec.case("signal", s, "n_off", off, "alpha", a, "requirement at", k, "of the significance solution", req):
                        one(f, s, off, a, req)
        return

    if job["kind"] == "bad":
        for off, a in itertools.product((0.0, 1.0, 50.0), (1.0, 0.2)):
            with rec.case("nan"):
                for args in ((NAN, off, a), (10.0, NAN, a), (NAN, NAN, a)):
                    r = f(*args)
                    need(r != r, f"{args}: {r}")
            for args in ((-1.0, off, a), (10.0, -1.0, a), (-1e-9, off, a), (-5, -5, a)):
                with rec.case("negative counts", args):
                    raises(ValueError, f, *args)
        for n in (2, 3):
            for pos in range(n):
                for val in (NAN, -1.0):
                    for which in (0, 1):
                        with rec.case("array of", n, "with", val, "at", pos, "in argument", which):
                            arrs = [np.full(n, 60.0), np.full(n, 20.0)]
                            arrs[which][pos] = val
                            if val < 0:
                                raises(ValueError, f, *arrs, 0.5)
                            else:
                                r = pure(f, *arrs, 0.5)
                                w = [rel_sensitivity(50.0, 20.0, 0.5)] * n
                                w[pos] = NAN
                                eq(r, w, None, "result", rtol=1e-6)
        return

    if job["kind"] == "shape":
        # every argument can be scalar or array
        pools = [[60.0, 35.0, 400.0, 50.0, 90.0, 21.0], [20.0, 5.0, 0.0, 30.0, 100.0, 1.0], [0.5, 0.2, 1.0, 0.1, 0.25, 0.05],
                 [5, 3, 1, 7, 2, 4], [10, 0, 100, 30, 1, 5], [0.05, 0.0, 1.0, 3.0, 0.1, 0.2]]
        shapes = [(), (1,), (2,), (3, 1), (3, 2)]
        for combo in itertools.product(range(len(shapes)), repeat=6):
            # all pairs of non-scalar arguments, and all arguments together
            non = [i for i in range(6) if combo[i]]
            if len(non) > 2 and len(set(combo)) > 1:
                continue
            shp = [shapes[c] for c in combo]
            out = np.broadcast_shapes(*shp)
            with rec.case("argument shapes", shp):
                args = [np.array([pools[k][i % 6] for i in range(int(np.prod(s)))]).reshape(s) if s else pools[k][0] for k, s in enumerate(shp)]
                r = pure(f, *args, again=len(non) == 1)
                need(np.shape(r) == out, f"shape {np.shape(r)}, expected {out}")
                full = [np.broadcast_to(np.asarray(x, float), out) for x in args]
                for idx in np.ndindex(out):
                    on, off, a, ms, me, mx = (float(x[idx]) for x in full)
                    w = rel_sensitivity(on - a * off, off, a, ms, me, mx)
                    eq(np.asarray(r)[idx], w, None, f"element {idx}", rtol=1e-6)
        for n in (50, 500):
            on = [(i * 37) % 101 + 60.0 for i in range(n)]
            off = [(i * 11) % 97 * 1.0 for i in range(n)]
            with rec.case("arrays of", n, steps=n):
                r = f(np.array(on), np.array(off), 0.3)
                eq(r, [rel_sensitivity(x - 0.3 * y, y, 0.3) for x, y in zip(on, off)], None, "result", rtol=1e-6)
        return

    if job["kind"] == "custom":
        funs = {
            "simple": (lambda n_on, n_off, alpha: (n_on - alpha * n_off) / np.sqrt(n_on + alpha**2 * n_off),
                       lambda e, off, a: e / (e + a * off + a * a * off) ** 0.5 if e > 0 else 0.0),
            "naive": (lambda n_on, n_off, alpha: (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1e-3),
                      lambda e, off, a: e / (a * off + 1e-3) ** 0.5),
            "ignores_off": (lambda n_on, n_off, alpha: np.sqrt(n_on) - np.sqrt(alpha * n_off),
                            lambda e, off, a: (e + a * off) ** 0.5 - (a * off) ** 0.5),
        }
        for name, (impl, ref) in funs.items():
            for s, off, a in itertools.product((3.7, 40.0, 1e3), (0.0, 0.5, 2.0, 10.0, 3e3), (1.0, 0.2)):
                for req in ((5, 0, 0), (2, 10, 0.05), (1, 0, 0.3)):
                    with rec.case("significance function", name, s, off, a, req):
                        r = f(s + a * off, off, a, *req, significance_function=impl)
                        w = rel_sensitivity(s, off, a, *req, sig_fun=ref)
                        if w > 1e-4:
                            eq(r, w, None, "result", rtol=1e-5)
                        arr = f(np.array([s + a * off] * 2), np.array([off] * 2), a, *req, significance_function=impl)
                        if w > 1e-4:
                            eq(arr, [w, w], None, "array", rtol=1e-5)
        return

    on = np.array([60.0, 35.0, 400.0, 50.0, 9.0])
    off = np.array([20.0, 5.0, 0.0, 30.0, 100.0])
    for (l1, x), (l2, y) in itertools.product(layouts(on), layouts(off)):
        for a in (1, 1.0, 0.2, np.float32(0.5)):
            with rec.case("layouts", l1, l2, "alpha", a, steps=5):
                r = pure(f, x, y, a)
                eq(r, [rel_sensitivity(p - float(a) * q, q, float(a)) for p, q in zip(on, off)], None, "result", rtol=1e-5)
    with rec.case("lists"):
        r = f([60, 35, 400], [20, 5, 0], 0.2)
        eq(r, [rel_sensitivity(p - 0.2 * q, q, 0.2) for p, q in zip([60, 35, 400], [20, 5, 0])], None, "result", rtol=1e-6)
    with rec.case("integer first results"):
        eq(f([5, 60], [20, 20], 1), [INF, rel_sensitivity(40, 20, 1)], None, "result", rtol=1e-6)
