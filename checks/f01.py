import io
import itertools
import os
import pathlib
import tempfile

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable

from mc.gadf import FINE, KINDS, UNITS, arguments, cells, check_hdu, creator, model
from mc.util import eq, fail, need, pure, raises

SPACE = """all six HDU kinds x all combinations of axis lengths 1..4 (thorough: 1..6) with every cell holding a distinct value x all unit combinations of all arguments x dtypes (f8, f4, i8, big endian) x memory
layouts x point_like/alignment/extname/extra cards (strings, numbers, bool, values with comment, cards overriding a default); each is written to a file and decoded from the raw bytes by TFORM/TDIM/CREF alone as well as
read with astropy (and gammapy for its IRF classes), several HDUs also together in one file in all orders; every argument replaced by every quantity of wrong physical type; unknown alignments."""
ASSUMPTIONS = ["DATE must be within an hour of the current time, the value of CREATOR is not compared", "HDUCLAS3 of rad max tables is always POINT-LIKE"]

CARDS = [{}, dict(TELESCOP="CTA-N"), dict(INSTRUME="LST", OBS_MODE="x y'z"), dict(MYINT=5, MYFLOAT=1.25, MYBOOL=False), dict(N_EV=(12, "a comment")),
         dict(HDUVERS="0.3"), dict(HDUCLAS1="OTHER", FOO="bar"), dict(RAD_MAX=0.2), dict(LOW_case=1),
         dict(AVERYLONGKEYWORD=3.141592653589793, TINY=1.2345678901e-21, BIG=2**40)]


def jobs(tier):
    n = 6 if tier == "thorough" else 4
    return [dict(what="shapes", kind=k, n=n) for k in KINDS] + [dict(what=w, kind=k, tier=tier) for k in KINDS for w in ("units", "settings", "reject")] + [dict(what="files"), dict(what="gammapy", n=4 if tier == "thorough" else 3)]


def roundtrip(hdus, path=None):
    """Write to a file in a scratch directory and read it back (fully loaded)."""
    hl = fits.HDUList([fits.PrimaryHDU(), *hdus])
    if path is None:
        b = io.BytesIO()
        hl.writeto(b)
        b.seek(0)
        src = b
    else:
        hl.writeto(path, overwrite=True)
        src = path
    out = fits.open(src, memmap=False)
    for h in out:
        h.data
    return out


def make(kind, data, edges, units=None, dtype=float, layout="C", again=False, cards=None, **settings):
    fn = creator(kind)
    args = arguments(kind, data, edges, units, dtype, layout)
    kw = dict(cards or {})
    kw.update({k: v for k, v in settings.items() if v is not None})
    return pure(fn, *args, again=again, **kw)


def card_model(cards):
    return {k: (v[0] if isinstance(v, tuple) else v) for k, v in cards.items()}


def full_check(kind, data, edges, units=None, dtype=float, layout="C", again=False, cards=None, rtol=1e-12, path=None, **settings):
    hdu = make(kind, data, edges, units, dtype, layout, again, cards, **settings)
    need(isinstance(hdu, fits.BinTableHDU), f"result is a {type(hdu).__name__}")
    st = {k: v for k, v in settings.items() if v is not None}
    extra = card_model(cards or {})
    check_hdu(hdu, kind, data, edges, extra, rtol, "new HDU:", **st)
    with roundtrip([hdu], path) as f:
        check_hdu(f[1], kind, data, edges, extra, rtol, "file:", **st)
        t = QTable.read(f[1])
        col, unit = KINDS[kind][3:5]
        eq(t[col][0], np.transpose(data), unit, f"QTable column {col}", rtol=rtol)
        for arg, p, un in KINDS[kind][2]:
            eq(t[f"{p}_LO"][0], edges[arg][:-1], un, f"{p}_LO", rtol=rtol, atol=1e-15)
            eq(t[f"{p}_HI"][0], edges[arg][1:], un, f"{p}_HI", rtol=rtol, atol=1e-15)


def run(job, rec):
    what, kind = job["what"], job.get("kind")
    if kind:
        names, axes, dcol, dunit = KINDS[kind][1:5]
        store = {arg: un for arg, _, un in axes} | {names[0]: dunit}
    if what == "shapes":
        for k, lens in enumerate(itertools.product(range(1, job["n"] + 1), repeat=len(axes))):
            for style in (0, 1, 2):
                data, edges = model(kind, lens, style)
                with rec.case(kind, "bins", dict(zip([p for _, p, _ in axes], lens)), "style", style):
                    full_check(kind, data, edges, again=style == 0 and k % 4 == 0)
            rec.outcome((kind, lens))
        for n in (1, 2):  # permuted edges: other axes get long
            lens = [(41, 13, 7)[(i + n) % 3] for i in range(len(axes))]
            data = np.arange(1.0, 1 + np.prod(lens)).reshape(lens)
            edges = {arg: (np.geomspace(0.01, 100, m + 1) if p in ("ENERG", "MIGRA") else np.linspace(0, 8, m + 1)).tolist() for (arg, p, _), m in zip(axes, lens)}
            with rec.case(kind, "bins", lens):
                full_check(kind, data, edges)
        for lens in itertools.permutations((3, 2, 1), len(axes)):
            data = np.arange(1.0, 1 + np.prod(lens)).reshape(lens) / 3 * 1.23456789e-5
            with rec.case(kind, "fine bins", lens):
                full_check(kind, data, {arg: FINE[p][: m + 1] for (arg, p, _), m in zip(axes, lens)}, again=True)
        for m in (1, 2, 3, 5):  # every axis with the same edges
            for e in ([0.5, 1.0, 2.0, 3.0, 7.0, 8.0], [-3.0, -2.0, -1.0, 1.0, 2.0, 3.0], [0.0, 0.25, 0.5, 0.75, 1.0, 1.25]):
                lens = (m,) * len(axes)
                data = np.arange(1.0, 1 + m ** len(axes)).reshape(lens)
                with rec.case(kind, "all axes with edges", e[: m + 1]):
                    full_check(kind, data, {arg: list(e[: m + 1]) for arg, _, _ in axes}, again=True)
        # values that must survive: nan, inf, denormal, huge
        lens = (4, 3, 2)[: len(axes)]
        data, edges = model(kind, lens)
        for v in (float("nan"), float("inf"), 5e-324, 1e300, -1.0, 0.0):
            for pos in range(data.size):
                d = data.copy()
                d.flat[pos] = v
                with rec.case(kind, "cell", pos, "=", v):
                    full_check(kind, d, edges)
    elif what == "units":
        for lens in [(3, 2, 4)[: len(axes)], (2, 4, 3)[: len(axes)], (1, 1, 1)[: len(axes)]]:
            data, edges = model(kind, lens)
            for combo in itertools.product(*[("",) if n == "migration_bins" else UNITS[store[n]] for n in names]):
                with rec.case(kind, lens, "units", combo):
                    full_check(kind, data, edges, dict(zip(names, combo)), rtol=1e-11)
                    rec.outcome((kind, combo))
            for dt in ("f8", "f4", ">f8", ">f4", "i8", "i4"):
                for layout in ("C", "F", "view", "readonly"):
                    dd, ee = model(kind, lens, 1)
                    if dt[0] == "i":
                        ee = {a: [8 * x for x in e] for a, e in ee.items()}
                    with rec.case(kind, lens, "dtype", dt, layout):
                        full_check(kind, dd, ee, None, dt, layout, again=True)
    elif what == "settings":
        lens = (3, 2, 4)[: len(axes)]
        data, edges = model(kind, lens)
        points = (None, True, False) if kind in ("aeff", "edisp", "rad_max") else (None,)
        aligns = (None, "ALTAZ", "RADEC") if kind == "bkg3d" else (None,)
        for pl, al, ext, cards in itertools.product(points, aligns, (None, "MY NAME", "OTHER"), CARDS):
            with rec.case(kind, "point_like", pl, "alignment", al, "extname", ext, "cards", cards):
                full_check(kind, data, edges, again=True, cards=cards, point_like=pl, alignment=al, extname=ext)
                rec.outcome((kind, pl, al, ext, str(cards)))
        for pair in itertools.combinations(CARDS[1:5] + CARDS[7:], 2):
            with rec.case(kind, "cards", pair):
                full_check(kind, data, edges, cards={**pair[0], **pair[1]})
    elif what == "reject":
        lens = (3, 2, 4)[: len(axes)]
        data, edges = model(kind, lens)
        good = arguments(kind, data, edges)
        bad = [u.TeV, u.deg, u.m**2, u.m, u.s, u.Unit("sr-1"), u.Unit("MeV-1 s-1 sr-1"), u.one, u.Unit("TeV-1 s-1"), u.Unit("MeV-1 s-1 deg-1")]
        for i, name in enumerate(names):
            if name == "migration_bins":
                continue
            for un in bad:
                if u.Unit(store[name]).is_equivalent(un):
                    continue
                args = list(good)
                args[i] = np.asarray(u.Quantity(good[i]).value) * un
                with rec.case(kind, name, "in", str(un)):
                    raises(Exception, creator(kind), *args)
            if store[name]:
                args = list(good)
                args[i] = np.asarray(u.Quantity(good[i]).value)
                with rec.case(kind, name, "without unit"):
                    raises(Exception, creator(kind), *args)
        if kind == "bkg3d":
            for al in ("altaz", "ALT", "RADEC ", "", None, 1, "ICRS", "LTAZ", "ADE"):
                with rec.case("alignment", al):
                    raises(ValueError, creator(kind), *good, alignment=al)
    elif what == "files":
        # several HDUs in one file on disk, in every order of the six kinds taken three at a time
        with tempfile.TemporaryDirectory() as d:
            path = pathlib.Path(d) / "irf.fits"
            for combo in itertools.permutations(KINDS, 3):
                hdus, want = [], []
                for j, k in enumerate(combo):
                    lens = [(1, 3, 2, 4)[(i + j) % 4] for i in range(len(KINDS[k][2]))]
                    data, edges = model(k, lens, 1)
                    cards = CARDS[(j + 1) % 4]
                    hdus.append(make(k, data + 64 * j, edges, cards=cards, extname=f"{k}_{j}".upper()))
                    want.append((k, data + 64 * j, edges, card_model(cards), f"{k}_{j}".upper()))
                with rec.case("file with", combo, steps=3, traces=3):
                    with roundtrip(hdus, path) as f:
                        need(len(f) == 4, "number of HDUs")
                        for k, data, edges, cards, ext in want:
                            check_hdu(f[ext], k, data, edges, cards, what=ext, extname=ext)
    else:
        from gammapy.irf import Background2D, Background3D, EffectiveAreaTable2D, EnergyDispersion2D, PSF3D, RadMax2D

        cls = dict(aeff=EffectiveAreaTable2D, psf=PSF3D, edisp=EnergyDispersion2D, bkg2d=Background2D, bkg3d=Background3D, rad_max=RadMax2D)
        gax = dict(ENERG="energy", THETA="offset", RAD="rad", MIGRA="migra", DETX="fov_lon", DETY="fov_lat")
        for kind in KINDS:
            axes, dcol, dunit = KINDS[kind][2:5]
            for lens in itertools.product(range(1, job["n"] + 1), repeat=len(axes)):
                data, edges = model(kind, lens, 1)
                for al in ("ALTAZ", "RADEC") if kind == "bkg3d" else (None,):
                    with rec.case("gammapy reads", kind, lens, al):
                        hdu = make(kind, data, edges, alignment=al)
                        with roundtrip([hdu]) as f:
                            irf = cls[kind].from_hdulist(f, hdu=1)
                        names = []
                        for arg, p, un in axes:
                            name = gax[p] + ("_true" if p == "ENERG" and arg.startswith("true") else "")
                            eq(irf.axes[name].edges, edges[arg], un, f"gammapy axis {name}")
                            names.append(name)
                        arr = np.moveaxis(irf.quantity, [irf.axes.names.index(n) for n in names], range(len(names)))
                        eq(arr, data, dunit, "gammapy data", rtol=1e-12)
                        if al:
                            need(irf.fov_alignment.value == al, f"alignment {irf.fov_alignment}")
                        if kind in ("aeff", "edisp", "rad_max"):
                            need(irf.is_pointlike is True, "not point-like")
