import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

from mc.catalog import agree, alphabet, pool, used
from mc.util import need, same, snap

SPACE = """all {n} operations of a catalog of the public functions (see U01) x every input object of the operation, and all of them together, x all storage variants: arrays and columns in big-endian byte order (as read from FITS), strided
(every second / third element of a larger buffer), reversed strides, Fortran order, read-only, memory not aligned, 0-d arrays for scalars and float subclasses; tables with reversed or sorted column order, additional columns (numbers, strings,
vectors, objects, columns with names similar to the used ones), meta data, as a slice, a boolean selection or an index selection of a larger table (thorough: all pairs of variants of the same object and of different objects).
Each result is compared with the one for the plain inputs, and the inputs must stay unchanged."""
ASSUMPTIONS = ["relative deviations up to 1e-9 (of the largest value times 1e-4) are rounding", "masked columns and object arrays of numbers are not covered"]
NAMES = list(alphabet())
SPACE = SPACE.replace("{n}", str(len(NAMES)))


# ------------------------------------------------------------------ arrays
def big(a):
    return a.astype(a.dtype.newbyteorder(">"))


def strided(a, k=2):
    b = np.zeros((k * a.shape[0], *a.shape[1:]), a.dtype)
    if a.dtype.kind == "f":
        b[...] = np.nan
    b[::k] = a
    return b[::k]


def thirds(a):
    return strided(a, 3)


def backward(a):
    return np.ascontiguousarray(a[::-1])[::-1]


def fortran(a):
    return np.array(np.asfortranarray(a), order="F")


def inner(a):
    """Strided along the last axis."""
    b = np.zeros((*a.shape[:-1], 2 * a.shape[-1]), a.dtype)
    b[..., ::2] = a
    return b[..., ::2]


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def unaligned(a):
    raw = np.zeros(a.nbytes + 1, np.uint8)
    b = raw[1:].view(a.dtype).reshape(a.shape)
    b[...] = a
    return b


ARRAYS = dict(big=big, strided=strided, thirds=thirds, backward=backward, fortran=fortran, inner=inner, readonly=readonly, unaligned=unaligned)


def lift(fn):
    def go(o):
        if isinstance(o, Table):
            return QTable([go(o[c]) for c in o.colnames], names=o.colnames, copy=False)
        if isinstance(o, u.Quantity):
            return u.Quantity(fn(np.array(o.value)), o.unit, copy=False, subok=True) if o.shape else u.Quantity(np.float64(o.value), o.unit)
        if isinstance(o, np.ndarray) and o.shape:
            return fn(np.array(o))
        if isinstance(o, float):
            return np.float64(o)
        return o

    return go


# ------------------------------------------------------------------ tables
def order(names):
    def go(t):
        return t[names(list(t.colnames))] if isinstance(t, Table) else t

    return go


def extra(t):
    if isinstance(t, Table):
        t = t.copy()
        n = len(t)
        t["aa"] = np.arange(n) - 3
        t["zz name"] = np.array(["gamma", "x"] * n)[:n]
        t["vector"] = np.arange(3.0 * n).reshape(n, 3) * u.m
        t["object"] = np.array([None] * n, dtype=object)
        for c in list(t.colnames[:-4]):
            for new in (c + "_2", "true_" + c, "old " + c, c.upper()):
                if new not in t.colnames:
                    t[new] = np.full(n, np.nan)
        for new in ("mc_weight", "weights", "relative_weight", "particle", "particle_type_id", "energy", "offset", "n", "index"):
            if new not in t.colnames:
                t[new] = np.full(n, 7)
        t = t[[t.colnames[i] for i in sorted(range(len(t.colnames)), key=lambda i: (i * 7) % 5)]]
    return t


def meta(t):
    if isinstance(t, Table):
        t = t.copy()
        t.meta = {"EXTNAME": "EVENTS", "unit": "m", "low": 1}
    return t


def bigger(t):
    """Larger table whose rows 1, 3, 5.. are those of t."""
    cols = []
    for c in t.colnames:
        v = t[c]
        b = np.empty(2 * len(t) + 1, v.dtype)
        b[1::2] = np.asarray(getattr(v, "value", v))
        b[::2] = np.asarray(getattr(v, "value", v))[0]
        cols.append(b * v.unit if isinstance(v, u.Quantity) else b)
    return QTable(cols, names=t.colnames)


def selected(how):
    def go(t):
        if not isinstance(t, Table):
            return t
        b = bigger(t)
        m = np.arange(len(b)) % 2 == 1
        return b[1::2] if how == "slice" else b[m] if how == "mask" else b[np.flatnonzero(m)] if how == "index" else b[list(np.flatnonzero(m))]

    return go


TABLES = {"reversed columns": order(lambda n: n[::-1]), "sorted columns": order(sorted), "extra columns": extra, "meta": meta,
          **{f"selected by {h}": selected(h) for h in ("slice", "mask", "index", "list")}}
VARIANTS = {**{k: lift(v) for k, v in ARRAYS.items()}, **TABLES}


def jobs(tier):
    deep = tier == "thorough"
    ops = sorted(NAMES, key=lambda n: not n.startswith(("optimize", "gammapy")))
    return [dict(op=n, deep=deep, part=p, parts=k) for n in ops for k in [6 if n.startswith("optimize") else 1] for p in range(k)]


def changed(o, fn):
    """False if the variant does not apply to the object."""
    return isinstance(o, Table) or (fn in ARRAYS and isinstance(o, (np.ndarray, float)))


def run(job, rec):
    f = alphabet()[job["op"]]
    ref = f(pool())
    start = pool()
    names = [n for n in used(f) if isinstance(getattr(start, n), (Table, np.ndarray, float))]
    todo = [((n, v),) for n in names for v in VARIANTS if changed(getattr(start, n), v)]
    todo += [tuple((n, v) for n in names if changed(getattr(start, n), v)) for v in VARIANTS]
    todo += [tuple((n, list(VARIANTS)[(i + j) % len(VARIANTS)]) for j, n in enumerate(names)) for i in range(len(VARIANTS))]
    if job["deep"]:
        todo += [((n, v), (n, w)) for n in names for v in TABLES for w in ARRAYS if changed(getattr(start, n), v)]
        if not job["op"].startswith(("optimize", "gammapy")):
            todo += [((n, v), (m, w)) for n, m in itertools.combinations(names, 2) for v in VARIANTS for w in VARIANTS if changed(getattr(start, n), v) and changed(getattr(start, m), w)]
    for combo in [c for c in todo if c][job["part"] :: job["parts"]]:
        with rec.case(job["op"], combo, steps=len(combo)):
            p = pool()
            for n, v in combo:
                setattr(p, n, VARIANTS[v](getattr(p, n)))
            before = snap(p.objects())
            res = f(p)
            if isinstance(ref, Table) and any(v == "extra columns" for _, v in combo):
                # tables derived from an input may keep its additional columns
                need(isinstance(res, Table) and set(ref.colnames) <= set(res.colnames), lambda: f"columns {getattr(res, 'colnames', res)}")
                res = res[ref.colnames]
            agree(ref, res, job["op"])
            need(same(before, snap(p.objects())), "the inputs are modified")
            rec.outcome((job["op"], combo))
    rec.outcome((job["op"], names))
