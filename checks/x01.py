import pathlib
import sys
import threading

import astropy.units as u
import numpy as np

from checks.h02 import Pool as EstimatorPool
from checks.h02 import kinds, targets
from mc.catalog import agree, alphabet, pool
from mc.util import fail, same, snap

SPACE = """schedules of two calls A and B with at most two context switches: all {n} operations of the catalog (see U01) as A x B = the same operation with other inputs, the same operation with the very same input objects, the next operation of the
catalog with the same input objects; and 24 estimator configurations (see H02), for one target inside and one outside of the grid, with A = an estimate or the construction and B = an estimate of the same object at another target, an estimate of another object, the construction of another object.
A is suspended at every source line of the package it executes (the first time it is reached, for the same operation (but the cut optimisations) also the second and last time; thorough: always the first ten times and the last), B runs to its end, A continues. Thorough: also A suspended at every line, B suspended at
every line of the same functions, A runs to its end, B continues (two threads under a controlled scheduler). Both results are compared with those of isolated calls."""
ASSUMPTIONS = ["the scheduler switches between source lines of the package; switches inside of calls into other libraries and inside of a line are not explored", "warnings are not compared"]
OPS = list(alphabet())
SPACE = SPACE.replace("{n}", str(len(OPS)))


def other():
    """Inputs with the same structure, but different values (and numbers of events)."""
    p = pool()
    for name in ("ev", "bg", "plain"):
        t = getattr(p, name)[3:-2][::-1]
        for c in ("true_energy", "reco_energy", "theta"):
            t[c] = t[c] * 1.21
        if "weight" in t.colnames:
            t["weight"] = t["weight"] * 1.5
        setattr(p, name, t)
    p.index, p.valid = p.index[3:-2][::-1], p.valid[3:-2][::-1]
    for name in ("aeff", "bkg2", "bkg3", "rad", "theta", "lon", "lat", "migra", "counts", "off", "effs", "area", "time", "grid", "lon_q", "lat_q", "offset", "inner", "reco", "theta2", "reco2"):
        setattr(p, name, getattr(p, name) * {"counts": 2, "off": 3}.get(name, 1.0625))
    p.effs = p.effs / 1.2
    p.edisp, p.psf = p.edisp[::-1, ::-1], p.psf[::-1, ::-1]
    p.energy = p.energy[:-1] * 1.1
    p.energy = np.append(p.energy.value, 24.0) * p.energy.unit
    for t in (p.cut, p.ghcut):
        t["cut"] = t["cut"] * 0.9
    for t in (p.hs, p.hb):
        for c in t.colnames:
            if c.startswith("n"):
                t[c] = t[c] * 2
    for s in (p.pl, p.lp, p.dif, p.gaus):
        s.normalization = s.normalization * 3
    for s in (p.sim, p.point):
        s.n_showers, s.spectral_index, s.max_impact = 70000, -2.25, 450 * u.m
    p.sim.viewcone_max = 2.75 * u.deg
    return p


# ------------------------------------------------------------------ the scheduler
def root():
    import pyirf

    return str(pathlib.Path(pyirf.__file__).parent) + "/"


def tracer(prefix, visit):
    def local(frame, event, arg):
        if event in ("line", "return"):
            visit((frame.f_code.co_filename[len(prefix) :], frame.f_code.co_name, frame.f_lineno, event == "return"))
        return local

    return lambda frame, event, arg: local if frame.f_code.co_filename.startswith(prefix) else None


def traced(f, visit):
    old = sys.gettrace()
    sys.settrace(tracer(root(), visit))
    try:
        return f()
    finally:
        sys.settrace(old)


def points(f, most):
    """The places at which f can be suspended: (location, number of the visit)."""
    count = {}
    traced(f, lambda where: count.__setitem__(where, count.get(where, 0) + 1))
    return [(w, k) for w, n in count.items() for k in sorted({*range(1, min(most, n) + 1), n})]


def nested(a, point, b):
    """A is suspended at the point, B runs, A continues."""
    seen, out = [0], []

    def visit(where):
        if where == point[0]:
            seen[0] += 1
            if seen[0] == point[1]:
                try:
                    out.append((True, b()))
                except Exception as e:  # noqa: BLE001
                    out.append((False, e))

    res = traced(a, visit)
    return res, out


def threads(a, first, b, second):
    """A to its point, B to its point, A to its end, B to its end."""
    turn = {"a": threading.Semaphore(0), "b": threading.Semaphore(0)}
    out, seen = {}, {"a": 0, "b": 0}

    def body(name, f, point, wake):
        turn[name].acquire()

        def visit(where):
            if where == point[0]:
                seen[name] += 1
                if seen[name] == point[1]:
                    turn[wake].release()
                    turn[name].acquire()

        with np.errstate(all="ignore"):
            try:
                out[name] = (True, traced(f, visit))
            except Exception as e:  # noqa: BLE001
                out[name] = (False, e)
        turn[wake].release()

    ts = [threading.Thread(target=body, args=("a", a, first, "b"), daemon=True), threading.Thread(target=body, args=("b", b, second, "a"), daemon=True)]
    for t in ts:
        t.start()
    turn["a"].release()
    for t in ts:
        t.join(120)
        if t.is_alive():
            fail("the calls block each other")
    return out


# ------------------------------------------------------------------ jobs
def big(name):
    return name.startswith("optimize")


def jobs(tier):
    deep = tier == "thorough"
    ops = [n for n in sorted(OPS, key=lambda n: not big(n)) if deep or not big(n) or n in ("optimize_gh_cut", "optimize options")]
    out = [dict(op=n, deep=deep, part=p, parts=k) for n in ops for k in [16 if big(n) else 2 if deep else 1] for p in range(k)]
    return out + [dict(estimator=n, deep=deep) for n in kinds()]


def check(ok, res, want, what):
    if not ok:
        fail(f"{what} raises {type(res).__name__}: {str(res)[:200]}")
    agree(want, res, what)


def explore(rec, label, a, want_a, others, deep, cmp, part=0, parts=1):
    places = points(a, 10 if deep else 2)
    todo = [(where, k, n) for where, k in places for i, n in enumerate(others) if deep or k == 1 or (i == 0 and "estimate" not in n and not big(label))]
    for where, k, n in todo[part::parts]:
        b, want_b = others[n]
        with rec.case(label, "suspended at", where, "visit", k, "B =", n, steps=2):
            res, out = nested(a, (where, k), b)
            cmp(True, res, want_a, "A")
            for ok, r in out:
                cmp(ok, r, want_b, "B")
            rec.outcome((label, n, where, bool(out)))
    if not deep:
        return
    firsts = [w for w, k in places if k == 1]
    for n, (b, want_b) in list(others.items())[: 1 if big(label) else None]:
        todo = [(w, v) for w in firsts for v, k in points(b, 1) if k == 1 and v[:2] == w[:2]]
        for w, v in todo[part::parts]:
            with rec.case(label, "suspended at", w, "B =", n, "suspended at", v, steps=3):
                out = threads(a, (w, 1), b, (v, 1))
                cmp(*out["a"], want_a, "A")
                cmp(*out["b"], want_b, "B")
                rec.outcome((label, n, w, v))


def run(job, rec):
    if "op" in job:
        name = job["op"]
        ops = alphabet()
        f = ops[name]
        p, q = pool(), other()
        nxt = OPS[(OPS.index(name) + 1) % len(OPS)]
        if nxt.startswith("optimize"):
            nxt = "histogram"
        fresh = {"same operation, other inputs": (lambda: f(q), f(other())), "same operation, same inputs": (lambda: f(p), f(pool())), f"{nxt}, same inputs": (lambda: ops[nxt](p), ops[nxt](pool()))}
        if big(name) and not job["deep"]:
            fresh = dict(list(fresh.items())[:1])
        explore(rec, name, lambda: f(p), f(pool()), fresh, job["deep"], check, job["part"], job["parts"])
        return
    name = job["estimator"]
    ks = kinds()
    names = list(ks)
    dim, make = ks[name]
    p = EstimatorPool()
    nxt = names[(names.index(name) + 1) % len(names)]

    def compare(ok, res, want, what):
        if not ok:
            fail(f"{what} raises {type(res).__name__}: {str(res)[:200]}")
        if want is not None and not same(want, snap(res), rtol=1e-12):
            fail(f"{what}: {str(snap(res))[:250]} instead of {str(want)[:250]}")

    def fresh(n, t):
        q = EstimatorPool()
        return snap(ks[n][1](q)(q.targets[ks[n][0]][t]))

    est, est2 = make(p), ks[nxt][1](p)
    ts, t2 = targets(name, dim), targets(nxt, ks[nxt][0])[1]
    for i, t in enumerate(ts):
        if not job["deep"] and i not in (1, len(ts) - 1):
            continue
        o = ts[(i + 1) % len(ts)]
        others = {
            f"estimate at target {o}": (lambda o=o: est(p.targets[dim][o]), fresh(name, o)),
            f"estimate of {nxt}": (lambda: est2(p.targets[ks[nxt][0]][t2]), fresh(nxt, t2)),
            f"construction of {nxt} and {name}": (lambda: (ks[nxt][1](p), make(p))[1](p.targets[dim][t]), fresh(name, t)),
        }
        explore(rec, f"{name} at target {t}", lambda: est(p.targets[dim][t]), fresh(name, t), others, job["deep"], compare)
        others.pop(f"estimate at target {o}")
        others[f"construction and estimate at target {o}"] = (lambda o=o: make(EstimatorPool())(p.targets[dim][o]), fresh(name, o))
        if i == 1 or job["deep"]:
            explore(rec, f"construction of {name} and estimate at target {t}", lambda: make(p)(p.targets[dim][t]), fresh(name, t), others, job["deep"] and i == 1, compare)
