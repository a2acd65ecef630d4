import astropy.units as u
import numpy as np

from mc.catalog import OBJECTS, agrees, alphabet, get, pool, put, quantities
from mc.util import fail

SPACE = """all {n} operations of the catalog (see U01) x all of the {k} quantities of the pool of inputs that belong to objects passed to the operation x all units of a list (kg, m, m2, s, 1/s, deg, sr, TeV, m/TeV, dimensionless quantity, plain numbers) that do not have the dimension of the quantity,
one quantity at a time (thorough: also all pairs of quantities with all pairs of wrong units): the call raises, or (if the operation does not use the quantity, or not its unit) returns the same result as before."""
ASSUMPTIONS = ["dimension-less or unit-less angles may be taken as radian (astropy's rule)",
               "generic helpers keep any unit and are exempt: bin_center, split/join_bin_lo_hi, add_overflow_bins, contents of resample_histogram1d, create_bins_per_decade (dimension-less), edges of histogram tables in calculate_sensitivity, theta in angular_resolution, the normalisation of a spectrum"]
NAMES = list(alphabet())
SPACE = SPACE.replace("{n}", str(len(NAMES))).replace("{k}", str(len(OBJECTS)))
WRONG = ["kg", "m", "m2", "s", "1/s", "deg", "sr", "TeV", "m/TeV", "", None]
FREE = {("resample mixed", "bkg2"), ("bin_center", "energy"), ("split", "energy"), ("join", "energy"), ("overflow", "energy"), ("sensitivity", "histograms"),
        ("power law", ("pl", "normalization")), ("log parabola", ("lp", "normalization")), ("gauss", ("gaus", "normalization")),
        ("angular_resolution", ("ev", "theta")), ("angular_resolution list", ("ev", "theta"))}


def jobs(tier):
    deep = tier == "thorough"
    ops = sorted(NAMES, key=lambda n: not n.startswith(("optimize", "gammapy")))
    return [dict(op=n, deep=deep, part=p, parts=k) for n in ops for k in [6 if n.startswith("optimize") else 1] for p in range(k)]


def wrong(key):
    unit = u.Unit(getattr(get(pool(), key), "unit", None) or "")
    angle = unit.is_equivalent(u.deg)
    return [w for w in WRONG if not (unit.is_equivalent(u.Unit(w or "")) or (angle and w in ("", None)) or (angle and w == "sr"))]


def change(p, key, unit):
    """Replace the quantity; False if the container does not accept the new unit."""
    def new(q):
        v = np.array(u.Quantity(q).value)
        return v * u.Unit(unit) if unit is not None else float(v) if v.shape == () else v

    try:
        put(p, key, new)
    except Exception:  # noqa: BLE001
        return False
    return True


def run(job, rec):
    name = job["op"]
    f = alphabet()[name]
    ref = f(pool())
    singles = [((k, w),) for k in quantities(f) if (name, k) not in FREE for w in wrong(k)]
    todo = list(singles)
    if job["deep"] and not name.startswith("optimize"):
        few = [((k, w),) for ((k, w),) in singles if w in ("kg", "m", "deg", "TeV")]
        same = lambda a, b: type(a) is type(b) and (isinstance(a, str) or a[0] == b[0])  # noqa: E731
        todo += [a + b for i, a in enumerate(few) for b in few[:i] if a[0][0] != b[0][0] and a[0][1] != b[0][1] and same(a[0][0], b[0][0])]
    for combo in todo[job["part"] :: job["parts"]]:
        with rec.case(name, combo, steps=len(combo)):
            p = pool()
            if not all([change(p, k, w) for k, w in combo]):
                continue
            try:
                res = f(p)
            except Exception as e:  # noqa: BLE001
                rec.outcome((name, combo, type(e).__name__))
                continue
            if not agrees(ref, res, 1e-9):
                fail(f"{name} accepts {combo} and returns {str(res)[:200]}")
            rec.outcome((name, combo, "not used"))
