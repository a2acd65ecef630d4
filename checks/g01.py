import itertools
import math

import astropy.units as u
import numpy as np
from astropy.coordinates import Angle, Latitude, Longitude
from astropy.table import QTable

from mc.util import layouts, need, pure, raises

SPACE = """All ordered pairs of directions from a grid of azimuths (0, 360, negative, beyond 360, next to the wrap) x altitudes (poles, next to the poles, horizon, both hemispheres) plus
displacements from 1e-7 to 20 deg in 8 directions around 12 pointings; for each pair separation, position angle, field-of-view longitude/latitude and the table based functions for
both prefixes are compared with plain spherical trigonometry, in arrays, tables and single scalar calls, for all unit combinations; antipodal and identical pairs included."""
ASSUMPTIONS = ["position angles of (anti)parallel directions are undefined, only their range is checked", "directions agree within 1e-9 rad, position angles within 1e-9 rad / sin(separation)"]

AZ = [0.0, 10.0, 90.0, 179.5, 180.0, 200.0, 270.0, 359.75, 360.0, -20.0, 370.0]
ALT = [-90.0, -89.5, -45.0, 0.0, 20.0, 70.0, 89.75, 90.0]


def vec(az, alt):
    a, b = math.radians(az), math.radians(alt)
    return math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)


def trig(az, alt, paz, palt):
    """separation, astronomical position angle, fov lon, fov lat (rad)"""
    d = math.radians(az - paz)
    b, c = math.radians(alt), math.radians(palt)
    east = math.cos(b) * math.sin(d)
    north = math.sin(b) * math.cos(c) - math.cos(b) * math.sin(c) * math.cos(d)
    ahead = math.sin(b) * math.sin(c) + math.cos(b) * math.cos(c) * math.cos(d)
    # small differences without cancellation
    db = math.radians(alt - palt)
    north = math.sin(db) + 2 * math.cos(b) * math.sin(c) * math.sin(d / 2) ** 2
    sep = math.atan2(math.hypot(east, north), ahead)
    return sep, math.atan2(east, north), math.atan2(east, ahead), math.atan2(north, math.hypot(east, ahead))


def jobs(tier):
    grid = [(a, b) for a in AZ for b in ALT]
    js = [dict(kind="pairs", p=list(p)) for p in grid]
    return js + [dict(kind="near", p=[a, b], deep=tier == "thorough") for a in (0.0, 180.0, 359.9, 77.0) for b in (0.0, 70.0, -89.9, 90.0)] + [dict(kind="single"), dict(kind="units")]


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def check_one(src, p, sep=None, phi=None, lon=None, lat=None, what=""):
    """values in deg"""
    s, pa, l, b = trig(*src, *p)
    if sep is not None:
        need(abs(math.radians(sep) - s) < 1e-9, f"{what} separation of {src} from {p}: {sep} deg, expected {math.degrees(s)}")
    if phi is not None:
        need(0 <= phi < 360, f"{what} position angle {phi} deg out of range")
        if math.sin(s) > 1e-8:
            need(angdiff(math.radians(phi), -pa) < 1e-9 / math.sin(s), f"{what} position angle of {src} from {p}: {phi} deg, expected {math.degrees(-pa) % 360}")
    if lat is not None:
        need(-90 <= lat <= 90, f"{what} latitude {lat} deg")
        need(abs(lon) <= 180 + 1e-12, f"{what} longitude {lon} deg")
        a, c = vec(lon, lat), vec(math.degrees(-l), math.degrees(b))
        need(max(abs(x - y) for x, y in zip(a, c)) < 1e-9, f"{what} fov coordinates of {src} from {p}: {lon}, {lat} deg, expected {math.degrees(-l)}, {math.degrees(b)}")
    return round(math.degrees(s), 6)


def val(q):
    return u.Quantity(q).to_value("deg")


def table(srcs, points, prefix, au="deg"):
    t = QTable()
    t[prefix + "_az"] = u.Quantity([s[0] for s in srcs], "deg").to(au)
    t[prefix + "_alt"] = u.Quantity([s[1] for s in srcs], "deg").to(au)
    other = {"true": "reco", "reco": "true"}[prefix]
    t[other + "_az"] = u.Quantity([(s[0] * 0.5 + 33) % 360 for s in srcs], "deg")
    t[other + "_alt"] = u.Quantity([s[1] * 0.3 for s in srcs], "deg")
    t["pointing_az"] = u.Quantity([p[0] for p in points], "deg").to(au)
    t["pointing_alt"] = u.Quantity([p[1] for p in points], "deg").to(au)
    return t


def arrays(srcs, points, rec, units=("deg", "deg"), again=False):
    from pyirf.coordinates import gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi
    from pyirf.utils import calculate_source_fov_lonlat, calculate_source_fov_offset, calculate_source_fov_position_angle, calculate_theta

    az, alt = (u.Quantity([s[k] for s in srcs], "deg").to(units[0]) for k in (0, 1))
    paz, palt = (u.Quantity([s[k] for s in points], "deg").to(units[1]) for k in (0, 1))
    th, ph = pure(gadf_fov_coords_theta_phi, az, alt, paz, palt, again=again)
    lo, la = pure(gadf_fov_coords_lon_lat, az, alt, paz, palt, again=again)
    res = []
    for prefix in ("true", "reco"):
        t = table(srcs, points, prefix, units[0])
        kw = {} if prefix == "true" else dict(prefix="reco")
        off = pure(calculate_source_fov_offset, t, again=again, **kw)
        pos = pure(calculate_source_fov_position_angle, t, again=again, **kw)
        lon, lat = pure(calculate_source_fov_lonlat, t, again=again, **kw)
        need(off.unit == pos.unit == u.deg and lon.unit == lat.unit == u.deg, "results are not in deg")
        res.append((off, pos, lon, lat))
    # calculate_theta: separation of the reconstructed from an assumed position
    t = table(srcs, points, "reco", units[0])
    theta = [pure(calculate_theta, t, assumed_source_az=paz, assumed_source_alt=palt, again=again), pure(calculate_theta, t, paz[0], palt[0], again=again)]
    need(theta[0].unit == u.deg, "theta is not in deg")
    n = len(srcs)
    for name, q in (("theta", th), ("phi", ph), ("lon", lo), ("lat", la), ("calculate_theta", theta[0]), ("offset", res[0][0])):
        need(np.shape(q) == (n,), f"{name} has shape {np.shape(q)}")
    th, ph, lo, la = val(th), val(ph), val(lo), val(la)
    tb = [tuple(val(x) for x in r) for r in res]
    th0, th1 = val(theta[0]), val(theta[1])
    for i, (s, p) in enumerate(zip(srcs, points)):
        with rec.case("source", s, "pointing", p, units, steps=1):
            rec.outcome(check_one(s, p, th[i], ph[i], lo[i], la[i], "gadf"))
            for prefix, (o, q, l, b) in zip(("true", "reco"), tb):
                check_one(s, p, o[i], q[i], l[i], b[i], prefix)
            check_one(s, p, th0[i], what="calculate_theta")
            check_one(s, points[0], th1[i], what="calculate_theta (scalar source)")


def run(job, rec):
    from pyirf.coordinates import gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi
    from pyirf.utils import calculate_source_fov_lonlat, calculate_source_fov_offset, calculate_source_fov_position_angle, calculate_theta

    if job["kind"] == "pairs":
        p = tuple(job["p"])
        srcs = [(a, b) for a in AZ for b in ALT]
        srcs.append(((p[0] + 180) % 360, -p[1]))
        arrays(srcs, [p] * len(srcs), rec)
        return
    if job["kind"] == "near":
        p = tuple(job["p"])
        srcs = []
        for d in (0.0, 1e-7, 1e-5, 1e-3, 0.1, 1.0, 5.0, 20.0) + ((1e-9, 1e-4, 0.01, 2.5, 60.0) if job["deep"] else ()):
            for k in range(8):
                a = math.pi * k / 4
                alt = p[1] + d * math.cos(a)
                if abs(alt) > 90:
                    continue
                srcs.append((p[0] + d * math.sin(a) / max(math.cos(math.radians(alt)), 1e-3), alt))
        arrays(srcs, [p] * len(srcs), rec)
        # displacements next to the rounding, the position angle stays below 360 deg
        for e in (1e-13, 3e-14, 1e-14, 1e-15, 1e-16):
            srcs += [(p[0] + k * e, min(p[1] + 1.0, 90.0)) for k in (-5, -2, -1, 1, 2, 5)]
        # many sources for many pointings in one call
        arrays(srcs, srcs[::-1], rec)
        return
    pts = [(0.0, 70.0), (180.0, -20.0), (359.75, 0.0), (33.0, 89.5)]
    if job["kind"] == "single":
        for s, p in itertools.product(pts + [(0.0, 90.0), (1.0, 69.0)], pts):
            q = [u.Quantity(x, "deg") for x in (*s, *p)]
            with rec.case("scalars", s, p):
                th, ph = pure(gadf_fov_coords_theta_phi, *q)
                lo, la = pure(gadf_fov_coords_lon_lat, *q)
                check_one(s, p, float(val(th)), float(val(ph)), float(val(lo)), float(val(la)), "scalar")
            with rec.case("one row", s, p):
                t = table([s], [p], "true")
                check_one(s, p, float(val(pure(calculate_source_fov_offset, t))[0]))
                t = table([s], [p], "reco")
                check_one(s, p, float(val(pure(calculate_theta, t, q[2], q[3]))[0]))
        with rec.case("2-d"):
            az = np.array([[0.0, 1.0, 2.0], [3.0, 4.0, 350.0]])
            th, ph = pure(gadf_fov_coords_theta_phi, az * u.deg, az * 0.1 * u.deg, 1 * u.deg, 2 * u.deg)
            lo, la = pure(gadf_fov_coords_lon_lat, az * u.deg, az * 0.1 * u.deg, 1 * u.deg, 2 * u.deg)
            need(th.shape == ph.shape == lo.shape == la.shape == (2, 3), "shape")
            for i in np.ndindex(2, 3):
                check_one((az[i], az[i] * 0.1), (1.0, 2.0), val(th)[i], val(ph)[i], val(lo)[i], val(la)[i])
        with rec.case("no events"):
            t = table([], [], "true")
            need(len(pure(calculate_source_fov_offset, t)) == 0, "length")
            need(len(pure(calculate_theta, table([], [], "reco"), 1 * u.deg, 2 * u.deg)) == 0, "length")
        for bad in ((1.0, 2.0), (1 * u.m, 2 * u.deg), (1 * u.deg, 2 * u.TeV)):
            with rec.case("bad source", str(bad)):
                raises((TypeError, u.UnitsError), calculate_theta, table(pts, pts, "reco"), *bad)
        for n in (1, 1000, 20000):
            with rec.case(n, "events"):
                srcs = [((i * 0.37) % 360, 40 + (i * 0.011) % 49) for i in range(n)]
                t = table(srcs, [(100.0, 70.0)] * n, "reco")
                o = val(pure(calculate_source_fov_offset, t, prefix="reco"))
                for i in range(0, n, max(1, n // 50)):
                    check_one(srcs[i], (100.0, 70.0), o[i])
        return
    srcs = [s for s in pts for _ in pts] + [(p[0] + 0.5, p[1] - 0.5) for p in pts] + [(12.0, 12.0)]
    points = pts * 4 + pts + [(12.0, 12.0)]
    for units in itertools.product(("deg", "rad", "arcmin", "hourangle"), repeat=2):
        arrays(srcs, points, rec, units, again=True)
    # single events
    t = table(srcs, points, "reco")
    for i, (s, p) in enumerate(zip(srcs, points)):
        with rec.case("single event", s, "pointing", p):
            off, pos, (lon, lat) = calculate_source_fov_offset(t[i], "reco"), calculate_source_fov_position_angle(t[i], "reco"), calculate_source_fov_lonlat(t[i], prefix="reco")
            check_one(s, p, *(float(val(q)) for q in (off, pos, lon, lat)), "single event")
            args = [t[i][c] for c in ("reco_az", "reco_alt", "pointing_az", "pointing_alt")]
            check_one(s, p, *(float(val(q)) for q in (*gadf_fov_coords_theta_phi(*args), *gadf_fov_coords_lon_lat(*args))), "single event")
            check_one(s, p, float(val(calculate_theta(t[i], *args[2:]))), what="calculate_theta")
    # subclasses of Quantity
    for lon_cls, lat_cls in itertools.product((Angle, Longitude), (Angle, Latitude)):
        with rec.case(lon_cls.__name__, lat_cls.__name__):
            args = [cls([x[k] for x in xs] * u.deg) for xs in (srcs, points) for k, cls in ((0, lon_cls), (1, lat_cls))]
            th, ph = pure(gadf_fov_coords_theta_phi, *args)
            lo, la = pure(gadf_fov_coords_lon_lat, *args)
            t = QTable(dict(zip(("true_az", "true_alt", "pointing_az", "pointing_alt"), args)))
            t["reco_az"], t["reco_alt"] = t["true_az"], t["true_alt"]
            off, pos, (lon, lat) = calculate_source_fov_offset(t), calculate_source_fov_position_angle(t), calculate_source_fov_lonlat(t, prefix="reco")
            theta = calculate_theta(t, args[2], args[3])
            for i, (s, p) in enumerate(zip(srcs, points)):
                check_one(s, p, *(val(q)[i] for q in (th, ph, lo, la)), "gadf")
                check_one(s, p, *(val(q)[i] for q in (off, pos, lon, lat)), "table")
                check_one(s, p, val(theta)[i], what="calculate_theta")
    for name, arr in layouts(np.array([0.0, 1.0, 64.0, 32.0])):
        with rec.case("layout", name):
            q = u.Quantity(arr, "deg", dtype=arr.dtype, copy=False)
            th, ph = pure(gadf_fov_coords_theta_phi, q, q[::-1], 10 * u.deg, 20 * u.deg)
            a = [0.0, 1.0, 64.0, 32.0]
            for i in range(4):
                if name == "float32":
                    need(abs(val(th)[i] - math.degrees(trig(a[i], a[::-1][i], 10.0, 20.0)[0])) < 1e-3, "separation")
                else:
                    check_one((a[i], a[::-1][i]), (10.0, 20.0), val(th)[i], val(ph)[i])
