"""Comparison, snapshot and enumeration helpers shared by all checks."""
from __future__ import annotations

import itertools
import math

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable, Table

from .engine import Mismatch

RTOL = 1e-9
NAN = float("nan")
INF = float("inf")


# ------------------------------------------------------------------ comparison
def fail(msg):
    raise Mismatch(msg)


def need(cond, msg="condition violated"):
    if not cond:
        raise Mismatch(msg() if callable(msg) else msg)


def short(x, n=200):
    s = " ".join(repr(x).split())
    return s if len(s) <= n else s[: n - 3] + "..."


def values(x, unit=None, what="result"):
    """Plain float array of x in the given unit (Mismatch if not convertible)."""
    if unit is not None:
        if getattr(x, "unit", None) is None and u.Unit(unit) != u.dimensionless_unscaled:
            fail(f"{what}: no unit, expected {unit}")
        try:
            x = u.Quantity(x).to_value(unit)
        except u.UnitConversionError:
            fail(f"{what}: has unit {getattr(x, 'unit', None)}, expected {unit}")
    elif getattr(x, "unit", None) is not None:
        if u.Unit(x.unit).physical_type != "dimensionless":
            fail(f"{what}: unexpected unit {x.unit}")
        x = u.Quantity(x).to_value("")
    return np.asarray(x)


def eq(got, want, unit=None, what="result", rtol=RTOL, atol=0.0, shape=True):
    """Exact shape and (nan/inf aware) values up to rounding."""
    g = values(got, unit, what)
    w = np.asarray(want)
    if shape and g.shape != w.shape:
        fail(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.dtype.kind in "OSU" or w.dtype.kind in "OSU":
        if not np.array_equal(g, w):
            fail(f"{what}: {short(g)}, expected {short(w)}")
        return
    g = g.astype(float)
    w = w.astype(float)
    if g.size == 1 and w.size == 1:
        a, b = float(g.reshape(())), float(w.reshape(()))
        if a == b or (a != a and b != b) or abs(a - b) <= atol + rtol * abs(b) < INF:
            return
        fail(f"{what}: {a!r}, expected {b!r}")
    with np.errstate(all="ignore"):
        ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (
            np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w))
        )
    if not np.all(ok):
        ok = np.broadcast_to(ok, np.broadcast_shapes(g.shape, w.shape))
        idx = tuple(int(i) for i in np.argwhere(~ok)[0])
        a = np.broadcast_to(g, ok.shape)[idx]
        b = np.broadcast_to(w, ok.shape)[idx]
        fail(f"{what}{list(idx)}: {a!r}, expected {b!r} ({int((~ok).sum())} of {ok.size} differ)")


def raises(exc, fn, *args, **kwargs):
    """fn must raise one of exc."""
    try:
        res = fn(*args, **kwargs)
    except exc as e:
        return e
    except Exception as e:  # noqa: BLE001
        names = getattr(exc, "__name__", None) or "/".join(x.__name__ for x in exc)
        fail(f"raised {type(e).__name__}: {str(e)[:200]} instead of {names}")
    names = getattr(exc, "__name__", None) or "/".join(x.__name__ for x in exc)
    fail(f"did not raise {names}, returned {short(res)}")


# ------------------------------------------------------------------ snapshots
def snap(o):
    """Deep structural copy that can be compared with `same`."""
    if isinstance(o, fits.Header):
        return ("header", tuple((c.keyword, _hv(c.value), c.comment) for c in o.cards
                                if c.keyword not in ("DATE", "CREATOR")))
    if isinstance(o, (fits.BinTableHDU,)):
        data = o.data
        cols = tuple((n, np.array(data[n])) for n in data.dtype.names)
        units = tuple((c.name, c.unit) for c in o.columns)
        return ("hdu", snap(o.header), tuple((n, snap(a)) for n, a in cols), units)
    if isinstance(o, Table):
        return ("table", type(o).__name__, tuple(o.colnames),
                tuple(snap(o[c]) for c in o.colnames), repr(dict(o.meta)))
    if isinstance(o, u.Quantity):
        return ("quantity", o.unit.to_string(), np.array(o.value))
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), str(getattr(o, "unit", None)), np.array(o))
    if isinstance(o, dict):
        return ("dict", tuple((k, snap(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v) for v in o))
    if isinstance(o, (float, np.floating)):
        return ("float", "nan" if o != o else float(o))
    if isinstance(o, (np.integer,)):
        return ("int", int(o))
    if o is None or isinstance(o, (int, bool, str, bytes, type, complex)) or callable(o) and not hasattr(o, "__dict__"):
        return o
    if isinstance(o, u.UnitBase):
        return ("unit", o.to_string())
    if type(o).__module__.startswith("pyirf") and hasattr(o, "__dict__"):
        d = {k: v for k, v in vars(o).items() if isinstance(v, (float, int, str, np.ndarray, np.generic))}
        return ("object", type(o).__name__, snap(d))
    return ("opaque", type(o).__name__)


def _hv(v):
    return "nan" if isinstance(v, float) and v != v else v


def same(a, b, rtol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "f":
            if rtol == 0:
                return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
            with np.errstate(all="ignore"):
                scale = np.nanmax(np.abs(a[np.isfinite(a)])) if np.isfinite(a).any() else 0.0
                return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))
                                   | (np.abs(a - b) <= rtol * np.maximum(np.abs(a), scale * 1e-3))))
        if a.dtype.names or a.dtype.kind == "O":
            return repr(a) == repr(b)
        return bool(np.array_equal(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if rtol and isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= rtol * abs(a)
    return type(a) is type(b) and a == b


def leaves(o):
    """All writeable numpy arrays inside o."""
    if isinstance(o, fits.BinTableHDU):
        yield from (np.asarray(o.data[n]) for n in o.data.dtype.names)
    elif isinstance(o, Table):
        for c in o.colnames:
            yield from leaves(o[c])
    elif isinstance(o, u.Quantity):
        if o.shape != ():
            yield o.value
    elif isinstance(o, np.ndarray):
        yield np.asarray(o)
    elif isinstance(o, dict):
        for v in o.values():
            yield from leaves(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from leaves(v)
    elif type(o).__module__.startswith("pyirf") and hasattr(o, "__dict__"):
        for v in vars(o).values():
            yield from leaves(v)


def scramble(result, keep=()):
    """Overwrite every array of a result in place, except views into `keep`."""
    keep = list(leaves(keep))
    n = 0
    for a in leaves(result):
        if not a.flags.writeable or a.size == 0:
            continue
        if any(np.may_share_memory(a, k) for k in keep):
            continue
        try:
            if a.dtype.kind == "f":
                a[...] = -77.25
            elif a.dtype.kind in "iu":
                a[...] = 99
            elif a.dtype.kind == "b":
                a[...] = ~a
            else:
                continue
        except (ValueError, TypeError):
            continue
        n += 1
    return n


def pure(fn, *args, again=True, label=None, **kwargs):
    """Call fn; inputs must stay unchanged and a repeated call must give the same
    result, also after the caller overwrote the first repetition's result."""
    name = label or getattr(fn, "__name__", str(fn))
    before = snap((args, kwargs))
    res = fn(*args, **kwargs)
    if not same(before, snap((args, kwargs))):
        fail(f"{name} modified its arguments")
    if again:
        want = snap(res)
        second = fn(*args, **kwargs)
        if not same(want, snap(second), rtol=1e-12):
            fail(f"{name}: second identical call gives another result: {short(second)} instead of {short(res)}")
        scramble(second, keep=(args, kwargs, res))
        if not same(before, snap((args, kwargs))):
            fail(f"{name}: arguments modified through the result")
        third = fn(*args, **kwargs)
        if not same(want, snap(third), rtol=1e-12):
            fail(f"{name}: result changed after the caller modified an earlier result: {short(third)} instead of {short(res)}")
    return res


# ------------------------------------------------------------------ enumeration
def up(x):
    return math.nextafter(x, INF)


def down(x):
    return math.nextafter(x, -INF)


def multisets(alphabet, depth, min_depth=0):
    """All event histories up to `depth`, canonicalised to multisets.

    The functions under test are checked separately to be order independent:
    every state is executed in canonical, reversed and rotated order.
    """
    for d in range(min_depth, depth + 1):
        yield from itertools.combinations_with_replacement(alphabet, d)


def orders(hist, full=False):
    """Event orders in which one multiset is executed."""
    hist = list(hist)
    res = [hist]
    if full and len(hist) <= 4:
        seen = {tuple(map(repr, hist))}
        for p in itertools.permutations(hist):
            k = tuple(map(repr, p))
            if k not in seen:
                seen.add(k)
                res.append(list(p))
        return res
    if len(hist) > 1:
        rev = hist[::-1]
        if rev != hist:
            res.append(rev)
        if len(hist) > 2:
            rot = hist[1:] + hist[:1]
            if rot not in res:
                res.append(rot)
    return res


def pump(hist, n):
    """Repeat a history cyclically to n events, deterministically interleaved."""
    m = len(hist)
    return [hist[(i * 7 + i // m) % m] for i in range(n)] if m else []


def chunked(seq, n):
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def strided(a):
    """Same values, non-contiguous memory."""
    a = np.asarray(a)
    big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype) if a.ndim else a
    if a.ndim == 0:
        return a
    big[..., ::2] = a
    return big[..., ::2]


def readonly(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def layouts(a):
    """The same array in different memory layouts / dtypes that hold it exactly."""
    a = np.asarray(a)
    yield "plain", np.array(a)
    yield "strided", strided(a)
    yield "readonly", readonly(a)
    if a.dtype.kind == "f":
        if np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2**31):
            yield "int64", a.astype(np.int64)
            yield "int32", a.astype(np.int32)
        with np.errstate(all="ignore"):
            f4 = a.astype(np.float32)
        if np.array_equal(f4.astype(np.float64), a, equal_nan=True):
            yield "float32", f4
    yield "bigendian", a.astype(a.dtype.newbyteorder(">"))


def table(cols, cls=QTable):
    t = cls()
    for k, v in cols.items():
        t[k] = v
    return t
