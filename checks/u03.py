import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable, Table, vstack

from mc.catalog import agree, alphabet, pool, used
from mc.util import need

SPACE = """all {n} operations of the catalog (see U01) that take event tables, with 48 signal and 60 background events: all rotations and strided permutations of the rows of each and of both tables (results per event must be permuted
in the same way, everything else must be unchanged); all lists of 1 to 3 blocks of additional events outside of all bins (below, above, nan energy) at the begin, the end or interleaved (results for the bins must be unchanged). For the {m}
operations that are sums over events (histogram columns, background rates and estimates, effective areas): all splits of the list in two consecutive parts, all splits in 2 to 7 interleaved parts, every single event left out
(the results add up), the list repeated 2 to 64 times, all weights multiplied by a factor (1e-9 to 1e9) and all weights split in two; normalised distributions (dispersion, PSF, migration matrix) do not change if the list is repeated.
Thorough: all pairs of row rotations of both tables, and all ways to leave out two events."""
ASSUMPTIONS = ["sums of weights may differ by rounding (1e-9 relative)"]

CAT = alphabet()
NAMES = [n for n in CAT if {"ev", "bg"} & set(used(CAT[n]))]


def columns(t):
    """Additive columns of a table of histograms."""
    need(isinstance(t, Table), f"result is a {type(t).__name__}")
    return {c: np.asarray(t[c], dtype=float) for c in t.colnames if c.startswith("n")}


def array(a):
    return {"weighted": np.asarray(u.Quantity(a).value, dtype=float)}


SUMS = {**{n: columns for n in ("histogram", "histogram true", "background", "background options")},
        **{n: array for n in ("background_2d", "background_3d", "background_2d time", "background_3d time", "aeff", "aeff fov", "aeff polar", "aeff lonlat")}}
WEIGHTED = ("histogram", "histogram true", "background", "background options", "background_2d", "background_3d", "background_2d time", "background_3d time")
NORMED = ("edisp", "migration", "psf")
# results per bin do not depend on events outside of all bins
BINNED = [n for n in NAMES if n in SUMS or n in NORMED or n.startswith(("percentile", "optimize", "angular_resolution", "bias"))]
SPACE = SPACE.replace("{n}", str(len(NAMES))).replace("{m}", str(len(SUMS)))


def jobs(tier):
    deep = tier == "thorough"
    ops = sorted(NAMES, key=lambda n: not n.startswith("optimize"))
    return [dict(op=n, deep=deep, part=p, parts=k) for n in ops for k in [8 if n.startswith("optimize") or deep else 1] for p in range(k)]


def take(o, idx):
    """Rows of everything that has one entry per event."""
    if isinstance(o, (list, tuple)):
        return [take(x, idx) for x in o]
    shape = getattr(o, "shape", ())
    if isinstance(o, Table):
        shape = (len(o),)
    if not isinstance(o, fits.BinTableHDU) and shape and shape[0] in idx:
        return o[idx[shape[0]]]
    return o


def permutations(n):
    out = [np.roll(np.arange(n), k) for k in range(1, n)]
    out += [np.roll(np.arange(n), k)[::-1] for k in range(0, n, 5)]
    out += [(np.arange(n) * k) % n for k in range(2, n) if np.gcd(k, n) == 1]
    return out


def part(p, name, rows):
    setattr(p, name, getattr(p, name)[rows])


def outside(t, k, where):
    """Table with k copies of the first rows outside of all bins added."""
    extra = t[np.arange(k) % len(t)]
    for c in ("true_energy", "reco_energy"):
        extra[c] = (np.full(k, {"below": 1e-3, "above": 900.0, "nan": np.nan}[where]) if where != "mixed" else np.resize([1e-3, 900.0, 39.9e-3, 30.01], k)) * u.TeV
    return extra


def run(job, rec):
    name = job["op"]
    f = CAT[name]
    p0 = pool()
    tabs = [t for t in ("ev", "bg") if t in used(f)]
    ref = f(pool())
    n = {t: len(getattr(p0, t)) for t in tabs}
    cases = []

    def permuted(perm):
        def go():
            p = pool()
            for t, i in perm.items():
                part(p, t, i)
                if t == "ev":
                    p.index, p.valid = p.index[i], p.valid[i]
            agree(take(ref, {n[t]: i for t, i in perm.items()}), f(p), name)

        return go

    for t in tabs:
        perms = permutations(n[t])
        if name.startswith("optimize") and not job["deep"]:
            perms = perms[::7]
        cases += [(("permuted", t, k), permuted({t: i})) for k, i in enumerate(perms)]
    if len(tabs) == 2:
        a, b = permutations(48), permutations(60)
        step = 1 if job["deep"] and not name.startswith("optimize") else 11
        cases += [(("both permuted", i, j), permuted({"ev": a[i], "bg": b[j]})) for i in range(0, len(a), step) for j in range(0, len(b), step)]

    if name in BINNED:
        def padded(blocks):
            def go():
                p = pool()
                for t in tabs:
                    rows = getattr(p, t)
                    for where, k, pos in blocks:
                        x = outside(rows, k, where)
                        cut = {"first": 0, "last": len(rows), "middle": len(rows) // 2}[pos]
                        rows = vstack([rows[:cut], x, rows[cut:]])
                    setattr(p, t, rows)
                agree(ref, f(p), name)

            return go

        single = [(w, k, pos) for w in ("below", "above", "mixed", "nan") for k in (1, 5) for pos in ("first", "last", "middle")]
        lists = [(s,) for s in single] + [(a, b) for a in single for b in single if a < b][:: 1 if job["deep"] else 7]
        if name.startswith("optimize"):
            lists = [x for x in lists if not any(s[0] == "nan" for s in x)][:: 1 if job["deep"] else 5]
        cases += [(("outside", *x), padded(x)) for x in lists]

    if name in SUMS:
        get = SUMS[name]
        whole = get(ref)

        def equal(got, want, what, factor=lambda c: 1.0):
            # columns of particles without events may be missing
            need(set(got) <= set(want), f"{what}: columns {list(got)}, expected {list(want)}")
            for c, w in want.items():
                w, g = w * factor(c), got.get(c, np.zeros_like(w))
                need(g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-12 * np.max(np.abs(w), initial=0)), lambda: f"{what}: {c} {g.tolist()}, expected {w.tolist()}")

        def of(rows_of=lambda t: t):
            p = pool()
            for t in tabs:
                setattr(p, t, rows_of(getattr(p, t)))
            return get(f(p))

        def add(results):
            total = {}
            for r in results:
                for c, v in r.items():
                    total[c] = total[c] + v if c in total else v
            return total

        def split(parts):
            return lambda: equal(add(of(lambda t: t[rows]) for rows in parts), whole, f"sum over {len(parts)} parts")

        m = n[tabs[0]]
        i = np.arange(m)
        cases += [(("split at", k), split([i[:k], i[k:]])) for k in range(m + 1)]
        cases += [(("interleaved", k), split([i[i % k == j] for j in range(k)])) for k in (2, 4, 5, 7)]
        cases += [(("blocks", k), split(np.array_split(i, k))) for k in range(2, 13)]
        cases += [(("left out", a), split([i[i != a], i[[a]]])) for a in range(m)]
        if job["deep"]:
            cases += [(("two left out", a, b), split([i[(i != a) & (i != b)], i[[a, b]]])) for a in range(m) for b in range(a)]
        cases += [(("repeated", k), lambda k=k: equal(of(lambda t: t[np.tile(i, k)]), whole, f"list repeated {k} times", lambda c: k)) for k in (2, 3, 5, 16, 64)]
        cases += [(("each repeated", k), lambda k=k: equal(of(lambda t: t[np.repeat(i, k)]), whole, f"every event {k} times", lambda c: k)) for k in (2, 3, 5, 16, 64)]
        if name in WEIGHTED:
            def weights(g):
                def go(t):
                    t = t.copy()
                    t["weight"] = g(t["weight"])
                    return t

                return go

            def scaled(x):
                equal(of(weights(lambda w: w * x)), whole, f"weights multiplied by {x}", lambda c: x if c.endswith("weighted") else 1)

            def summed(k):
                w1 = np.abs(np.sin(1.0 + i * k))
                a, b = of(weights(lambda w: w * w1)), of(weights(lambda w: w * (1 - w1)))
                equal({c: a[c] + b[c] if c.endswith("weighted") else a[c] for c in a}, whole, "split weights")

            cases += [(("weights times", c), lambda c=c: scaled(c)) for c in (2.0, 0.5, 3.0, 1e-9, 1e9, 0.0)]
            cases += [(("weights split", k), lambda k=k: summed(k)) for k in range(1, 9)]
    if name in NORMED:
        for k in (2, 3, 5, 16, 64):
            for how in (np.tile, np.repeat):
                def repeated(k=k, how=how):
                    p = pool()
                    for t in tabs:
                        part(p, t, how(np.arange(n[t]), k))
                    agree(ref, f(p), name)

                cases += [(("repeated", how.__name__, k), repeated)]

    for descr, go in cases[job["part"] :: job["parts"]]:
        with rec.case(name, *descr):
            go()
            rec.outcome((name, descr))

