import itertools

import astropy.units as u
import numpy as np

from mc.util import INF, eq, layouts, need, pure

SPACE = """All histograms with 1 to 5 bins over the content alphabets {0, 1, 5, 0.25} (5 bins: {0,1}) and {-1, 0, 1, 2.5} (also total 0), over uniform, irregular,
logarithmic and infinite under-/overflow edges; new edges: identical, all merges and sub-ranges (every subset of the old edges
with at least two members), refinements, enclosing ranges, ranges reaching outside on either side, completely outside, with
infinite outer edges; 1D, 2D and 3D data with the resampled axis in every position (pairwise different lengths, slices with
different contents, empty slices), units, dtypes, memory layouts."""
ASSUMPTIONS = ["values agree up to 1e-9 of the total content of the slice",
               "bins of finer or shifted edges are only required to add up (the spline may place content freely inside the range)"]

EDGES = {
    "uni": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0],
    "irr": [-1.0, 0.5, 1.0, 4.0, 5.0, 9.0],
    "log": [0.01, 0.1, 1.0, 10.0, 100.0, 1000.0],
    "dec": [0.1, 0.2, 0.3, 0.4, 0.5, 0.6],
    "big": [1e3, 2e3, 5e3, 1e4, 2e4, 5e4],
}


def jobs(tier):
    js = []
    for e in EDGES:
        for n in (1, 2, 3, 4, 5):
            js.append(dict(kind="1d", edges=e, n=n, deep=tier == "thorough"))
        js.append(dict(kind="nd", edges=e))
    js += [dict(kind="inf", core=c) for c in range(3)] + [dict(kind="units")]
    return js


def contents(n, deep):
    al = [0.0, 1.0, 5.0, 0.25]
    if n == 5 and not deep:
        al = [0.0, 1.0]
    yield from itertools.product(al, repeat=n)
    # negative contents (background subtracted histograms), also with vanishing total
    for data in itertools.product([-1.0, 0.0, 1.0, 2.5] if n < 4 or deep else [-1.0, 0.0, 1.0], repeat=n):
        if min(data) < 0 and (n < 5 or deep or sum(data) == 0):
            yield data


def subsets(edges):
    for k in range(2, len(edges) + 1):
        yield from itertools.combinations(edges, k)


def others(edges):
    """edges that are no subset of the old ones: (new edges, encloses)"""
    a, b = edges[0], edges[-1]
    w = b - a
    mid = sorted(set(list(edges) + [0.5 * (x + y) for x, y in zip(edges[:-1], edges[1:])]))
    yield mid, True
    yield [a - w] + list(edges) + [b + w], True
    yield [a - 2 * w, a - w, a - 0.5 * w, 0.5 * (a + b), b + w, b + 3 * w, b + 4 * w], True
    yield [a - w, b + w], True
    yield [a, b], True
    yield [a - 3 * w, a - 2 * w, a - w], False
    yield [a - 3 * w, a - 2 * w, a], False
    yield [b, b + w, b + 5 * w], False
    yield [b + w, b + 2 * w], False
    yield [a - w, a, edges[1]], False
    yield [edges[-2], b, b + w], False
    yield [a + 0.3 * w, a + 0.4 * w, a + 0.8 * w], False
    yield [-INF, a, b, INF], True
    yield [a - w] + mid[1:-1] + [INF], True
    fine = [a + w * i / 23 for i in range(24)]
    fine[-1] = b
    yield fine, True
    yield [a - w, a - 0.5 * w] + fine + [b + 1e-3 * w, b + 50 * w], True


def check_slice(res, data, old, new, encl, what, rel=1e-9):
    """res, data: plain lists of one slice"""
    total = sum(data)
    tol = rel * max(sum(abs(d) for d in data), 0)
    need(len(res) == len(new) - 1, f"{what}: {len(res)} bins")
    need(not any(r != r for r in res), f"{what}: nan in {res}")
    if not any(data):
        need(all(r == 0 for r in res), f"{what}: empty histogram gets content {res}")
    if list(new) == list(old):
        eq(res, data, None, f"{what}: unchanged edges", atol=tol, rtol=0)
    pos = {e: i for i, e in enumerate(old)}
    cum = [0.0]
    for d in data:
        cum.append(cum[-1] + d)
    cdf = []
    for e in new:
        if e <= old[0]:
            cdf.append(0.0)
        elif e >= old[-1]:
            cdf.append(total)
        else:
            cdf.append(cum[pos[e]] if e in pos else None)
    for i in range(len(new) - 1):
        if cdf[i] is not None and cdf[i + 1] is not None:
            eq(res[i], cdf[i + 1] - cdf[i], None, f"{what}: bin [{new[i]}, {new[i+1]}]", atol=tol, rtol=0)
        if new[i + 1] <= old[0] or new[i] >= old[-1]:
            need(abs(res[i]) <= tol, f"{what}: content {res[i]} outside of the old range")
    # any range of new bins between known points conserves the content there
    known = [i for i, c in enumerate(cdf) if c is not None]
    for i, j in zip(known[:-1], known[1:]):
        eq(sum(res[i:j]), cdf[j] - cdf[i], None, f"{what}: content between {new[i]} and {new[j]}", atol=tol, rtol=0)
    if encl:
        eq(sum(res), total, None, f"{what}: total", atol=tol, rtol=0)


def run(job, rec):
    from pyirf.binning import resample_histogram1d as f

    if job["kind"] == "1d":
        old = EDGES[job["edges"]][: job["n"] + 1]
        o = np.array(old)
        news = [(list(s), s[0] == old[0] and s[-1] == old[-1]) for s in subsets(old)] + list(others(old))
        arrs = [np.array(n) for n, _ in news]
        for data in contents(job["n"], job["deep"]):
            d = np.array(data)
            for k, ((new, encl), narr) in enumerate(zip(news, arrs)):
                with rec.case("content", data, "old", old, "new", new):
                    res = pure(f, d, o, narr) if sum(data) in (0, 7) else f(d, o, narr)
                    check_slice(values_list(res), data, old, new, encl, "1d")
                    rec.outcome(tuple(round(float(x), 6) for x in values_list(res)))
        return

    if job["kind"] == "nd":
        for n in (2, 3, 4):
            old = EDGES[job["edges"]][: n + 1]
            o = np.array(old)
            news = [(list(s), s[0] == old[0] and s[-1] == old[-1]) for s in subsets(old)] + list(others(old))
            for shape, axes in (((n, 6), (0, -2)), ((6, n), (1, -1)), ((n, 2, 5), (0,)), ((5, n, 1), (1,)), ((2, 5, n), (2, -1)), ((1, n), (1,)), ((n, 1), (0,))):
                for axis in axes:
                    size = int(np.prod(shape))
                    base = np.array([[0.0, 1.0, 5.0, 0.25, -2.0, 0.0, 7.0][(3 * i + i // 7) % 7] for i in range(size)]).reshape(shape)
                    for empty in (None, 0, 1, 2):
                        arr = base.copy()
                        other = np.moveaxis(arr, axis, -1).reshape(-1, n)
                        if empty is not None:
                            mv = np.moveaxis(arr, axis, -1)
                            flat = list(np.ndindex(mv.shape[:-1]))
                            mv[flat[empty % len(flat)]] = 0.0
                            if empty == 2:
                                mv[...] = 0.0
                        for new, encl in news:
                            with rec.case("shape", shape, "axis", axis, "empty", empty, "old", old, "new", new):
                                res = np.asarray(pure(f, arr, o, np.array(new), axis=axis, again=empty == 0))
                                want_shape = list(shape)
                                want_shape[axis] = len(new) - 1
                                need(res.shape == tuple(want_shape), f"shape {res.shape}, expected {tuple(want_shape)}")
                                r = np.moveaxis(res, axis, -1)
                                d = np.moveaxis(arr, axis, -1)
                                for idx in np.ndindex(r.shape[:-1]):
                                    check_slice(r[idx].tolist(), d[idx].tolist(), old, new, encl, f"slice {idx}")
                                    # independent of the other slices
                                    if idx == (0,) * len(idx):
                                        alone = values_list(f(d[idx].copy(), o, np.array(new)))
                                        eq(r[idx], alone, None, f"slice {idx} vs alone", atol=1e-9 * np.abs(d[idx]).sum())
        return

    if job["kind"] == "inf":
        for core in ([1.0, 2.0, 4.0], [0.1, 1.0, 10.0, 100.0], [-3.0, -1.0, 5.0, 6.0])[job["core"] : job["core"] + 1]:
            for pre, post in itertools.product(([], [-INF]), ([], [INF])):
                old = pre + core + post
                n = len(old) - 1
                for data in itertools.product([0.0, 1.0, 5.0], repeat=n):
                    d = np.array(data)
                    news = [list(s) for s in subsets(core)]
                    news += [[-INF] + s + [INF] for s in news if len(s) > 1] + [[-INF] + s for s in news] + [s + [INF] for s in news]
                    if pre or post:
                        news.append(old)
                    for new in news:
                        with rec.case("content", data, "old", old, "new", new):
                            res = values_list(f(d, np.array(old), np.array(new)))
                            lo_in = not pre or new[0] == -INF
                            hi_in = not post or new[-1] == INF
                            if new == old:
                                eq(res, data, None, "unchanged edges", atol=1e-9 * sum(data), rtol=0)
                            encl = (new[0] <= old[0]) and (new[-1] >= old[-1])
                            if encl:
                                eq(sum(res), sum(data), None, "total", atol=1e-9 * sum(data), rtol=0)
                            if sum(data) == 0:
                                need(all(r == 0 for r in res), "empty histogram gets content")
                            need(all(r == r for r in res), "nan")
                            # finite part: contents between finite old edges
                            cum = [0.0]
                            for x in data:
                                cum.append(cum[-1] + x)
                            pos = {e: i for i, e in enumerate(old)}
                            for i in range(len(new) - 1):
                                a, b = new[i], new[i + 1]
                                ca = cum[pos[a]] if a in pos else (0.0 if a <= old[0] else None)
                                cb = cum[pos[b]] if b in pos else (cum[-1] if b >= old[-1] else None)
                                if ca is not None and cb is not None:
                                    eq(res[i], cb - ca, None, f"bin [{a}, {b}]", atol=1e-9 * sum(data), rtol=0)
        return

    # units, layouts
    old = [0.5, 1.0, 4.0, 5.0]
    data = [1.0, 0.0, 5.0]
    for ou, nu, du in itertools.product(("TeV", "GeV", "erg"), ("TeV", "GeV", "erg"), (None, "1/s", "m2", "")):
        for new, encl in [(list(s), s[0] == old[0] and s[-1] == old[-1]) for s in subsets(old)] + [o for o in others(old)]:
            for axis in (0, 1):
                with rec.case("old in", ou, "new in", nu, "data in", du, "new", new, "axis", axis):
                    d = np.array(data) if axis == 0 else np.array([data, [0.0] * 3, [2.0, 2.0, 1.0]])
                    q = d if du is None else u.Quantity(d, du)
                    qo = u.Quantity(old, "TeV").to(ou)
                    qn = u.Quantity(new, "TeV").to(nu)
                    res = pure(f, q, qo, qn, axis=axis, again=ou == nu)
                    if du is None:
                        need(not hasattr(res, "unit") or res.unit == u.one, "unit appeared")
                    else:
                        need(getattr(res, "unit", None) == u.Unit(du), f"unit {getattr(res, 'unit', None)}")
                    r = np.asarray(res.value if hasattr(res, "unit") else res)
                    # edges that coincide only up to rounding: compare with the plain calculation
                    plain = np.asarray(f(d, np.array(old), np.array(new), axis=axis))
                    eq(r, plain, None, "values", atol=1e-6 * d.sum())
    for new, encl in [(list(s), s[0] == old[0] and s[-1] == old[-1]) for s in subsets(old)] + list(others(old)):
        for lname, arr in layouts(np.array(data)):
            for l2, o in layouts(np.array(old)):
                with rec.case("layout", lname, l2, new):
                    res = pure(f, arr, o, np.array(new))
                    check_slice(values_list(res), data, old, new, encl, lname, 1e-6 if lname == 'float32' else 1e-9)
        for lname, arr in layouts(np.array([data, [0.0] * 3, [2.0, 2.0, 1.0]])):
            with rec.case("layout 2d", lname, new):
                res = np.asarray(pure(f, arr, np.array(old), np.array(new), axis=1))
                for i in range(3):
                    check_slice(res[i].tolist(), [float(x) for x in arr[i]], old, new, encl, lname, 1e-6 if lname == 'float32' else 1e-9)
    # contents whose sum exceeds the range of their type
    for dt, big in (("i1", 100), ("u1", 200), ("i2", 30000), ("u2", 60000), ("i4", 2**31 - 7)):
        for k in range(2, 6):
            ed = [0.5, 1.0, 4.0, 5.0, 6.0, 9.0][: k + 1]
            for shape in ((k,), (k, 2), (2, k)):
                arr = np.array([big - i for i in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
                axis = shape.index(k) if k > 2 or len(shape) == 1 else 0
                if arr.shape[axis] != k:
                    continue
                for new, encl in [(list(s), s[0] == ed[0] and s[-1] == ed[-1]) for s in subsets(ed)] + list(others(ed)):
                    with rec.case("dtype", dt, "shape", shape, "axis", axis, "old", ed, "new", new):
                        res = np.moveaxis(np.asarray(pure(f, arr, np.array(ed), np.array(new), axis=axis)), axis, -1)
                        for idx in np.ndindex(res.shape[:-1]):
                            check_slice(res[idx].tolist(), [int(x) for x in np.moveaxis(arr, axis, -1)[idx]], ed, new, encl, dt)
    # many bins
    for n in (10, 50, 200):
        old = [float(i) for i in range(n + 1)]
        data = [float((i * 7) % 5) for i in range(n)]
        for new, encl in ([old, True], [old[::2] + ([old[-1]] if n % 2 else []), True], [old[3:-3], False], [[-5.0] + old + [n + 10.0], True]):
            with rec.case(n, "bins"):
                res = f(np.array(data), np.array(old), np.array(new))
                check_slice(values_list(res), data, old, new, encl, f"{n} bins")


def values_list(res):
    return [float(x) for x in np.asarray(res.value if hasattr(res, "unit") else res)]
