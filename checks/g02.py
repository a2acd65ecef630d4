import itertools
import math

import astropy.units as u
import numpy as np

from mc.models import cone, ring
from mc.util import eq, layouts, need, pure

SPACE = """cone_solid_angle for every angle of a grid from 0 to 180 deg (scalar, 0-d, 1-d, 2-d, all units, layouts) and additivity for all pairs; rectangle_solid_angle for all ordered quadruples of longitude and
latitude edges of a grid (poles, across zero, full circle, empty), all units per argument, scalars, arrays and broadcasting of (lon, 1) x (1, lat) grids with different lengths; every subdivision of
the sphere into up to 6x6 rectangles adds up."""
ASSUMPTIONS = ["the solid angle of rectangles and rings is subject to rounding of the difference (absolute 4e-15 sr)"]

ANGLES = [0.0, 1e-9, 1e-6, 0.01, 0.1, 0.5, 1.0, 5.0, 30.0, 60.0, 90.0, 120.0, 179.0, 180.0]
LON = [-180.0, -90.0, -1.0, 0.0, 0.5, 5.0, 90.0, 180.0, 360.0]
LAT = [-90.0, -60.0, -59.98, -1.0, 0.0, 0.25, 2.0, 45.0, 45.004, 90.0]


def rect(l1, l2, b1, b2):
    b1, b2 = math.radians(b1), math.radians(b2)
    return math.radians(l2 - l1) * 2 * math.cos((b1 + b2) / 2) * math.sin((b2 - b1) / 2)


def jobs(tier):
    return [dict(kind="cone")] + [dict(kind="rect", i=i) for i in range(len(LON))] + [dict(kind="grid"), dict(kind="units")]


def run(job, rec):
    from pyirf.utils import cone_solid_angle, rectangle_solid_angle

    kind = job["kind"]
    if kind == "cone":
        for a in ANGLES:
            for un in ("deg", "rad", "arcmin", "hourangle"):
                for shape in ((), (1,), (2, 3)):
                    with rec.case("cone", a, un, shape):
                        r = pure(cone_solid_angle, u.Quantity(np.full(shape, a), "deg").to(un))
                        eq(r, np.full(shape, cone(math.radians(a))), "sr", "solid angle", rtol=1e-12)
                        need(bool(np.all(r >= 0)), "negative")
                        rec.outcome(float(np.max(r.value)))
        for k in range(1, 4):
            for c in itertools.product(ANGLES, repeat=k):
                with rec.case("cones", c, steps=k):
                    r = cone_solid_angle(u.Quantity(c, "deg"))
                    eq(r, [cone(math.radians(a)) for a in c], "sr", "solid angle", rtol=1e-12)
        for k in range(2, 7):
            for c in itertools.combinations(ANGLES, k):
                with rec.case("rings", c, steps=k):
                    d = np.diff(cone_solid_angle(u.Quantity(c, "deg")))
                    eq(d, [ring(math.radians(a), math.radians(b)) for a, b in zip(c[:-1], c[1:])], "sr", "rings", atol=4e-15)
                    need(bool(np.all(d >= 0)), "negative ring")
        with rec.case("Angle object and full sphere"):
            from astropy.coordinates import Angle

            eq(cone_solid_angle(Angle(180, "deg")), 4 * math.pi, "sr", "sphere")
            eq(cone_solid_angle(Angle([90, 180], "deg")), [2 * math.pi, 4 * math.pi], "sr", "sphere")
        for name, arr in layouts(np.array([0.0, 1.0, 2.0, 64.0])):
            with rec.case("layout", name):
                eq(pure(cone_solid_angle, u.Quantity(arr, "deg", dtype=arr.dtype, copy=False)), [cone(math.radians(a)) for a in (0, 1, 2, 64)], "sr", "cone", rtol=1e-3 if name == "float32" else 1e-9)
        for k in range(-12, 2):
            with rec.case("single precision", k):
                a = np.array([0.0, 1.0, 2.0, 3.0], dtype=np.float32) * np.float32(10.0**k)
                eq(pure(cone_solid_angle, u.Quantity(a, "deg", dtype=np.float32)), [cone(math.radians(float(x))) for x in a], "sr", "cone", rtol=1e-5)
                eq(pure(cone_solid_angle, u.Quantity(a, "rad", dtype=np.float32)), [cone(float(x)) for x in a], "sr", "cone", rtol=1e-5)
        with rec.case("many", steps=10000):
            a = np.linspace(0, 180, 10000)
            eq(pure(cone_solid_angle, a * u.deg), [cone(math.radians(x)) for x in a], "sr", "cones", rtol=1e-12)
        return
    if kind == "rect":
        l1 = LON[job["i"]]
        for l2, (b1, b2) in itertools.product(LON, itertools.product(LAT, repeat=2)):
            with rec.case("rectangle", l1, l2, b1, b2):
                r = pure(rectangle_solid_angle, *(u.Quantity(x, "deg") for x in (l1, l2, b1, b2)), again=False)
                eq(r, rect(l1, l2, b1, b2), "sr", "solid angle", atol=4e-15)
                if l1 <= l2 and b1 <= b2:
                    need(r >= 0, "negative")
                rec.outcome(round(float(r.value), 9))
            for units in (("deg", "rad", "arcmin", "deg"), ("rad", "deg", "deg", "arcmin"), ("rad", "rad", "rad", "rad"), ("hourangle", "hourangle", "deg", "deg")):
                with rec.case("rectangle", l1, l2, b1, b2, units):
                    r = rectangle_solid_angle(*(u.Quantity(x, "deg").to(n) for x, n in zip((l1, l2, b1, b2), units)))
                    eq(r, rect(l1, l2, b1, b2), "sr", "solid angle", atol=1e-14)
        return
    if kind == "grid":
        for kl, kb in itertools.product(range(2, 8), range(2, 8)):
            for shift in (0, 1):
                lons, lats = LON[shift:][:kl], LAT[1 - shift:][:kb]
                with rec.case("grid", lons, lats, steps=kl * kb):
                    lo, la = u.Quantity(lons, "deg"), u.Quantity(lats, "deg")
                    r = pure(rectangle_solid_angle, lo[:-1, None], lo[1:, None], la[None, :-1], la[None, 1:])
                    eq(r, [[rect(a, b, c, d) for c, d in zip(lats[:-1], lats[1:])] for a, b in zip(lons[:-1], lons[1:])], "sr", "grid", atol=4e-15)
                    eq(r.sum(), rect(lons[0], lons[-1], lats[0], lats[-1]), "sr", "sum", atol=1e-13)
        for n, m in itertools.product(range(1, 7), repeat=2):
            with rec.case("sphere", n, m):
                lo, la = np.linspace(-180, 180, n + 1) * u.deg, np.linspace(-90, 90, m + 1) * u.deg
                r = rectangle_solid_angle(lo[:-1, None], lo[1:, None], la[None, :-1], la[None, 1:])
                eq(r.sum(), 4 * math.pi, "sr", "sphere")
        return
    for units in itertools.product(("deg", "rad", "arcmin"), repeat=4):
        with rec.case("arrays in", units):
            v = ([0.0, 1.0, 10.0], [2.0, 5.0, 300.0], [-5.0, 0.0, 45.0], [5.0, 0.5, 90.0])
            r = pure(rectangle_solid_angle, *(u.Quantity(x, "deg").to(n) for x, n in zip(v, units)))
            eq(r, [rect(*x) for x in zip(*v)], "sr", "solid angles", atol=1e-14)
    for name, arr in layouts(np.array([0.0, 1.0, 2.0, 64.0])):
        with rec.case("layout", name):
            q = u.Quantity(arr, "deg", dtype=arr.dtype, copy=False)
            r = pure(rectangle_solid_angle, q[:-1], q[1:], q[:-1], q[1:])
            eq(r, [rect(a, b, a, b) for a, b in ((0, 1), (1, 2), (2, 64))], "sr", "rectangles", rtol=1e-3 if name == "float32" else 1e-9)
