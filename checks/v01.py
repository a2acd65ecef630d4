import itertools
import re

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

from mc.util import fail, need, pure

SPACE = """all tables over a universe of 4 columns (each absent or with one of 5 units / unit-less / string column) x all subsets of required columns (as list, tuple, set, dict keys, generator) x all maps of required units
over 3 columns (not required, 4 units), names that differ in case or are parts of each other, for QTable and Table with 0, 1 and 3 rows; the expected verdict (accepted, missing columns and their names, column with wrong unit) is computed from the column model.
is_scalar for every kind of number, array, quantity, column and sequence of a list."""
ASSUMPTIONS = ["if a table has both missing columns and wrong units, either error may be reported", "at least one of the missing columns required only by required_units must be named"]

UNITS = [None, "absent", "TeV", "GeV", "deg", "", "m"]
REQ = [None, "TeV", "rad", "", "cm"]
NAMES = ["energy", "theta", "weight"]
PHYS = {None: "one", "": "one", "TeV": "E", "GeV": "E", "deg": "A", "rad": "A", "m": "L", "cm": "L"}


def jobs(tier):
    return [dict(what="units", first=i, rows=r) for i in range(len(UNITS)) for r in (0, 3)] + [dict(what="columns"), dict(what="scalar")]


def make(cls, cols, rows=3):
    t = cls()
    for k, un in cols.items():
        if un == "absent":
            continue
        v = np.arange(rows, dtype=float)
        if un == "str":
            t[k] = np.array(["x"] * rows, dtype="U2")
        elif un == "int":
            t[k] = np.arange(rows)
        else:
            t[k] = v
            if un is not None:
                if cls is QTable:
                    t[k] = u.Quantity(v, un)
                else:
                    t[k].unit = un
    return t


def names_in(text, universe):
    """Names of `universe` that are mentioned as whole words."""
    return {n for n in universe if re.search(rf"(?<!\w){re.escape(n)}(?!\w)", text)}


def verdict(fn, *args, **kwargs):
    from pyirf.exceptions import IRFException, MissingColumns, WrongColumnUnit

    try:
        res = pure(fn, *args, again=False, **kwargs)
    except MissingColumns as e:
        need(isinstance(e, IRFException), "MissingColumns is not an IRFException")
        return "missing", str(e)
    except WrongColumnUnit as e:
        need(isinstance(e, IRFException), "WrongColumnUnit is not an IRFException")
        return "unit", str(e)
    need(res is None, f"returned {res!r}")
    return "ok", ""


def check(t, cols, required, units, universe, passed=None):
    from pyirf.utils import check_table

    kw = {}
    if required is not None:
        kw["required_columns"] = passed if passed is not None else required
    if units is not None:
        kw["required_units"] = {k: u.Unit(v) for k, v in units.items()}
    present = {k for k, un in cols.items() if un != "absent"}
    miss = set(required or ()) - present
    umiss = set(units or ()) - present
    wrong = {k for k, v in (units or {}).items() if k in present and PHYS.get(cols[k], "one") != PHYS[v]}
    got, text = verdict(check_table, t, **kw)
    # the message cannot tell names apart that only differ by white space
    plain = all(re.fullmatch(r"\w+", n) for n in universe)
    named = names_in(text, universe) if plain else None
    expect = f"missing {sorted(miss)}, missing for units {sorted(umiss)}, wrong units {sorted(wrong)}"
    if got == "ok":
        need(not (miss or umiss or wrong), lambda: f"table accepted, but {expect}")
    elif got == "missing":
        need(miss or umiss, lambda: f"MissingColumns({text!r}), but {expect}")
        need(not plain or named <= miss | umiss, lambda: f"MissingColumns names {sorted(named)}, but {expect}")
        need(not plain or (miss <= named if miss else named), lambda: f"MissingColumns names {sorted(named)}, but {expect}")
    else:
        need(wrong, lambda: f"WrongColumnUnit({text!r}), but {expect}")
        need(not plain or (len(named & wrong) >= 1 and named <= wrong), lambda: f"WrongColumnUnit names {sorted(named)}, but {expect}")
    return got


def run(job, rec):
    if job["what"] == "units":
        for rest in itertools.product(UNITS, repeat=2):
            cols = dict(zip(NAMES, (UNITS[job["first"]], *rest)))
            tables = [make(c, cols, job["rows"]) for c in (QTable, Table)]
            for req in itertools.product(REQ, repeat=3):
                units = {n: r for n, r in zip(NAMES, req) if r is not None}
                for k, t in enumerate(tables):
                    with rec.case(type(t).__name__, cols, "rows", job["rows"], "required units", units):
                        rec.outcome(check(t, cols, None, units if units or k else None, NAMES))
                        if job["rows"]:
                            check(t, cols, [NAMES[sum(map(bool, req)) % 3]], units, NAMES)
    elif job["what"] == "columns":
        universes = [["energy", "weight", "n", "theta", "true_energy", "e"], ["energy", "Energy", "ENERGY", "energy_", "ener", "x"], ["energy", " energy", "energy ", "ene rgy", "x", "x\t"]]
        for universe, mask in itertools.product(universes, itertools.product((0, 1), repeat=6)):
            cols = {n: ("absent", "TeV", None, "str", "int")[m * (1 + i % 4)] for i, (n, m) in enumerate(zip(universe, mask))}
            for cls in (QTable, Table):
                t = make(cls, cols, 2)
                for size in range(len(universe) + 1):
                    for req in itertools.combinations(universe, size):
                        for form in (list, tuple, set, dict.fromkeys, iter):
                            if form is not list and (sum(mask) + size) % 5 != [list, tuple, set, dict.fromkeys, iter].index(form):
                                continue
                            with rec.case(cls.__name__, sorted(k for k, v in cols.items() if v != "absent"), "required", req, getattr(form, "__name__", str(form))):
                                rec.outcome(check(t, cols, req, None, universe, form(req)))
        for cls in (QTable, Table):
            t = make(cls, dict(a="TeV", b=None), 2)
            with rec.case("nothing required"):
                need(verdict(__import__("pyirf.utils", fromlist=["x"]).check_table, t)[0] == "ok", "rejected")
                check(t, dict(a="TeV", b=None), [], {}, ["a", "b"])
    else:
        from pyirf.utils import is_scalar

        scal = [0, 1, -1.5, float("nan"), float("inf"), True, 2 + 1j, np.float64(1), np.float32(1), np.int8(3), np.bool_(False), np.array(5), np.array(2.5), 1 * u.m, 0 * u.one,
                np.float32(2) * u.deg, u.Quantity(np.array(3), "TeV"), u.Quantity(5, dtype=int), 10**30]
        arr = [[], [1], [1, 2], (3,), np.array([]), np.array([1]), np.array([[1]]), np.ones((2, 3)), np.zeros((0, 3)), [1] * u.m, [] * u.m, [[1, 2]] * u.deg, u.Quantity([1], dtype=int),
               QTable({"a": [1] * u.m})["a"], Table({"a": [1, 2]})["a"], range(3), [[1, 2], [3, 4]], np.arange(100000), np.array([True]), np.ones((1, 1, 1)) * u.s]
        for v in scal:
            with rec.case("is_scalar", lambda v=v: repr(v)):
                need(pure(is_scalar, v) is True or is_scalar(v) == True, f"is_scalar({v!r}) is {is_scalar(v)!r}")  # noqa: E712
        for v in arr:
            with rec.case("is_scalar", lambda v=v: repr(v)[:60]):
                need(not pure(is_scalar, v), f"is_scalar({v!r}) is {is_scalar(v)!r}")
