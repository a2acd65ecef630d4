import itertools

import astropy.units as u
import numpy as np

from mc.catalog import OBJECTS, agree, agrees, alphabet, pool, put, quantities

SPACE = """all {n} operations of a catalog of the public functions (the alphabet of H01 plus the IRF estimators and variants with all optional arguments) x all of the {k} quantities of the pool of inputs that belong to objects passed to the operation
(edges, cuts, limits, observation times, components, columns of the event, cut and histogram tables, attributes of simulation infos and spectra) x 2 (thorough: 4) other units of the same dimension, one at a time;
and for the quantities that influence the operation (measured: a wrong dimension raises or changes the result) all combinations of units of all pairs (thorough: triples) of them, and all of them at once.
Each result is compared physically (units converted) with the one in the original units."""
ASSUMPTIONS = ["relative deviations up to 1e-8 (of the largest value times 1e-4) are rounding", "the order and the energy scale of inputs are fixed by the pool (the checks of the individual functions vary them)"]
NAMES = list(alphabet())
SPACE = SPACE.replace("{n}", str(len(NAMES))).replace("{k}", str(len(OBJECTS)))
MORE = {"GeV": ("MeV", "PeV"), "rad": ("arcsec", "uas"), "km2": ("mm2", "AU2"), "s": ("us", "d")}
SLOW = ("optimize", "gammapy")


def jobs(tier):
    deep = tier == "thorough"
    order = sorted(NAMES, key=lambda n: not n.startswith(SLOW))
    return [dict(op=n, deep=deep, part=p, parts=8 if n.startswith("optimize") else 1) for n in order for p in range(8 if n.startswith("optimize") else 1)]


def relevant(f, ref):
    out = []
    for key in quantities(f):
        p = pool()
        put(p, key, lambda q: u.Quantity(q).value * u.kg)
        try:
            if agrees(ref, f(p), 1e-8):
                continue
        except Exception:  # noqa: BLE001
            pass
        out.append(key)
    return out


def run(job, rec):
    f = alphabet()[job["op"]]
    ref = f(pool())
    units = {k: tuple(v) + (MORE.get(v[0], ()) if job["deep"] else ()) for k, v in OBJECTS.items()}
    todo = [((k, x),) for k in quantities(f) for x in units[k]]
    rel = relevant(f, ref)
    slow = job["op"].startswith(SLOW)
    for r in (2, 3) if job["deep"] and not slow else (2,):
        for keys in itertools.combinations(rel, r):
            todo += [tuple(zip(keys, c)) for c in itertools.product(*(OBJECTS[k] for k in keys))]
    todo += [tuple((k, units[k][i % len(units[k])]) for k in rel) for i in range(4)]
    todo += [tuple((k, units[k][(i + j) % len(units[k])]) for j, k in enumerate(rel)) for i in range(4)]
    for combo in todo[job["part"] :: job["parts"]]:
        with rec.case(job["op"], combo, steps=len(combo)):
            p = pool()
            for key, unit in combo:
                put(p, key, lambda q, unit=unit: u.Quantity(q).to(unit))
            res = f(p)
            agree(ref, res, job["op"], 1e-8)
            rec.outcome((job["op"], combo))
    rec.outcome((job["op"], len(rel)))
