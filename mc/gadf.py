"""Plain model of the GADF HDUs: which values, axes, units and header cards a file must contain."""
from __future__ import annotations


import datetime
import itertools
import math
import re

import astropy.units as u
import numpy as np

from .util import eq, fail, need, short

# kind -> creator, arguments (data first), axes of the data [(argument, column prefix, unit)], data column, data unit, HDUCLAS2, HDUCLAS4, default name
KINDS = {
    "aeff": ("create_aeff2d_hdu", ("effective_area", "true_energy_bins", "fov_offset_bins"),
             [("true_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], "EFFAREA", "m2", "EFF_AREA", "AEFF_2D", "EFFECTIVE AREA"),
    "psf": ("create_psf_table_hdu", ("psf", "true_energy_bins", "source_offset_bins", "fov_offset_bins"),
            [("true_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg"), ("source_offset_bins", "RAD", "deg")],
            "RPSF", "sr-1", "PSF", "PSF_TABLE", "PSF"),
    "edisp": ("create_energy_dispersion_hdu", ("energy_dispersion", "true_energy_bins", "migration_bins", "fov_offset_bins"),
              [("true_energy_bins", "ENERG", "TeV"), ("migration_bins", "MIGRA", ""), ("fov_offset_bins", "THETA", "deg")],
              "MATRIX", "", "EDISP", "EDISP_2D", "EDISP"),
    "bkg2d": ("create_background_2d_hdu", ("background_2d", "reco_energy_bins", "fov_offset_bins"),
              [("reco_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], "BKG", "MeV-1 s-1 sr-1", "BKG", "BKG_2D", "BACKGROUND"),
    "bkg3d": ("create_background_3d_hdu", ("background_3d", "reco_energy_bins", "fov_lon_bins", "fov_lat_bins"),
              [("reco_energy_bins", "ENERG", "TeV"), ("fov_lon_bins", "DETX", "deg"), ("fov_lat_bins", "DETY", "deg")],
              "BKG", "MeV-1 s-1 sr-1", "BKG", "BKG_3D", "BACKGROUND"),
    "rad_max": ("create_rad_max_hdu", ("rad_max", "reco_energy_bins", "fov_offset_bins"),
                [("reco_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], "RAD_MAX", "deg", "RAD_MAX", "RAD_MAX_2D", "RAD_MAX"),
}
#: compatible units used for the input of each storage unit
UNITS = {"TeV": ("TeV", "GeV", "erg"), "deg": ("deg", "rad", "arcmin"), "m2": ("m2", "km2", "cm2"), "sr-1": ("sr-1", "deg-2"),
         "": ("", "percent"), "MeV-1 s-1 sr-1": ("MeV-1 s-1 sr-1", "TeV-1 s-1 sr-1", "GeV-1 h-1 deg-2")}
#: edges in the storage unit (prefixes of increasing length are used)
EDGES = {"ENERG": [0.5, 1.0, 3.0, 10.0, 40.0, 50.0, 75.0, 100.0], "THETA": [0.0, 0.75, 1.0, 2.5, 4.0, 4.5, 5.0, 6.0], "RAD": [0.0, 0.125, 0.25, 1.0, 1.5, 3.0, 4.0, 5.0],
         "MIGRA": [0.25, 0.5, 1.0, 1.25, 4.0, 5.0, 6.0, 8.0], "DETX": [-3.0, -2.5, 0.0, 1.0, 5.0, 5.5, 6.0, 7.0], "DETY": [-6.0, -1.0, -0.5, 2.0, 2.5, 3.0, 4.0, 9.0]}

# edges that are no round numbers, to be used in double precision only
FINE = {"ENERG": [0.0012345678901234, 0.1 + 1e-9, 1 / 3, 99.9999], "THETA": [1e-5, 0.7512345, 0.7512346, 5.0001], "RAD": [0.0, 2.0**-14, 0.1 + 1e-6, 1 / 7], "MIGRA": [0.0, 0.2 + 1e-7, 1.2500001, 1e3 / 3],
        "DETX": [-1e-4, 1e-5, 1 / 3, 5.00001], "DETY": [-2 / 3, -1e-6, 0.12345678, 7.0]}


def creator(kind):
    from pyirf.io import gadf

    return getattr(gadf, KINDS[kind][0])


def cells(shape, style=0):
    """Distinct values that identify the cell (exactly representable also as float32 and, doubled, as integers)."""
    a = np.zeros(shape)
    for idx in np.ndindex(*shape):
        v = 0
        for i in idx:
            v = v * 8 + i + 1
        a[idx] = v * (0.5 if style == 0 else 1.0)
    if style == 2 and a.size > 1:  # zero and tiny values
        a.flat[0] = 0.0
        a.flat[-1] = 2.0**-40
    return a


def model(kind, lens, style=0):
    """(cell values, {argument: edges}) in the storage units."""
    axes = KINDS[kind][2]
    return cells(tuple(lens), style), {arg: EDGES[p][: n + 1] for (arg, p, _), n in zip(axes, lens)}


def arguments(kind, data, edges, units=None, dtype=float, layout="C"):
    """Arguments for the creator, converted to the given units {argument: unit}."""
    _, names, axes, _, dunit, *_ = KINDS[kind]
    units = units or {}
    store = {arg: un for arg, _, un in axes}
    store[names[0]] = dunit
    res = []
    for name in names:
        x = np.array(data if name == names[0] else edges[name], dtype=float)
        un = units.get(name, store[name])
        x = x * u.Unit(store[name]).to(un)
        x = x.astype(dtype)
        if layout == "F":
            x = np.asfortranarray(x)
        elif layout == "view":
            big = np.full(tuple(2 * n for n in x.shape), -9, dtype=x.dtype)
            view = big[tuple(slice(None, None, 2) for _ in x.shape)]
            view[...] = x
            x = view
        elif layout == "readonly":
            x.setflags(write=False)
        if store[name] == "" and un == "":
            res.append(x)  # plain arrays
        else:
            res.append(u.Quantity(x, un, copy=False, dtype=x.dtype))
    return res


STRUCT = re.compile(r"^(XTENSION|BITPIX|NAXIS\d*|PCOUNT|GCOUNT|TFIELDS|T(TYPE|FORM|UNIT|DIM|NULL|SCAL|ZERO|DISP)\d+|CHECKSUM|DATASUM)$")


def expected_header(kind, column_index, point_like=None, alignment=None, extname=None):
    """Header cards (without DATE/CREATOR, whose value depends on time and version)."""
    _, _, axes, _, _, clas2, clas4, name = KINDS[kind]
    enclosure = "FULL-ENCLOSURE"
    if kind == "rad_max" or (kind in ("aeff", "edisp") and point_like in (None, True)):
        enclosure = "POINT-LIKE"
    h = {"HDUDOC": "https://github.com/open-gamma-ray-astro/gamma-astro-data-formats", "HDUVERS": "0.2", "HDUCLASS": "GADF",
         "HDUCLAS1": "RESPONSE", "HDUCLAS2": clas2, "HDUCLAS3": enclosure, "HDUCLAS4": clas4,
         f"CREF{column_index}": "(" + ",".join(f"{p}_LO:{p}_HI" for _, p, _ in axes) + ")", "EXTNAME": extname or name}
    if kind == "bkg3d":
        h["FOVALIGN"] = alignment or "ALTAZ"
    return h


def raw_columns(hdu):
    """{column: (values in FITS axis order flattened, shape numpy, unit)} decoded from header and raw bytes only."""
    h = hdu.header
    need(h["NAXIS2"] == 1, f"{h['NAXIS2']} rows")
    raw = hdu.data.tobytes() if hdu.data.dtype.isnative is False else None
    rec = hdu.data
    res, pos = {}, 0
    for i in range(1, h["TFIELDS"] + 1):
        form = re.fullmatch(r"(\d*)([DEKJI])", h[f"TFORM{i}"])
        need(form, f"unexpected TFORM{i} = {h[f'TFORM{i}']}")
        n = int(form[1] or 1)
        dt = {"D": ">f8", "E": ">f4", "K": ">i8", "J": ">i4", "I": ">i2"}[form[2]]
        if raw is not None:
            vals = np.frombuffer(raw, dt, n, pos)
            pos += n * np.dtype(dt).itemsize
        else:
            vals = np.asarray(rec.field(i - 1)).ravel()
        dim = h.get(f"TDIM{i}")
        dims = tuple(int(x) for x in dim.strip("()").split(",")) if dim else (n,)
        res[h[f"TTYPE{i}"]] = (np.array(vals, float), dims, h.get(f"TUNIT{i}", ""))
    return res


def check_hdu(hdu, kind, data, edges, extra=(), rtol=1e-12, what="", dates=True, skip=(), **settings):
    """Compare an HDU (fresh or read from a file) with the model, decoding it via the FITS header only."""
    _, _, axes, dcol, dunit, *_ = KINDS[kind]
    cols = raw_columns(hdu)
    want_cols = {f"{p}_{s}" for _, p, _ in axes for s in ("LO", "HI")} | {dcol}
    need(set(cols) == want_cols, lambda: f"{what} columns {sorted(cols)}, expected {sorted(want_cols)}")
    for arg, p, un in axes:
        for s, sl in (("LO", slice(None, -1)), ("HI", slice(1, None))):
            vals, dims, unit = cols[f"{p}_{s}"]
            if u.Unit(unit) != u.Unit(un):
                fail(f"{what} unit of {p}_{s} is {unit!r}, expected {un!r}")
            eq(vals, np.array(edges[arg][sl], float), what=f"{what} {p}_{s}", rtol=rtol, atol=1e-15)
    vals, dims, unit = cols[dcol]
    if u.Unit(unit) != u.Unit(dunit):
        fail(f"{what} unit of {dcol} is {unit!r}, expected {dunit!r}")
    data = np.asarray(data, float)
    need(len(dims) == data.ndim or data.size == 1, lambda: f"{what} {dcol} has TDIM {dims} for data {data.shape}")
    if data.size > 1:
        # FITS order: the first axis varies fastest and belongs to the first axis named in CREF
        names = [k for k in hdu.header if k.startswith("CREF")]
        need(len(names) == 1, f"{what} CREF cards: {names}")
        order = [a.split("_LO")[0] for a in hdu.header[names[0]].strip("()").split(",")]
        prefixes = [p for _, p, _ in axes]
        need(sorted(order) == sorted(prefixes), lambda: f"{what} {names[0]} = {hdu.header[names[0]]}")
        arr = np.asarray(vals).reshape(dims, order="F")
        lens = tuple(data.shape[prefixes.index(p)] for p in order)
        need(arr.shape == lens, lambda: f"{what} {dcol}: {dict(zip(order, arr.shape))}, expected {dict(zip(order, lens))}")
        eq(np.transpose(arr, [order.index(p) for p in prefixes]), data, what=f"{what} {dcol}", rtol=rtol)
    else:
        eq(vals.reshape(()), data.reshape(()), what=f"{what} {dcol}", rtol=rtol)
    check_header(hdu.header, kind, extra, what, dates, skip, **settings)


def check_header(header, kind, extra=(), what="", dates=True, skip=(), **settings):
    dcol = KINDS[kind][3]
    idx = [int(k[5:]) for k in header if k.startswith("TTYPE") and header[k] == dcol]
    want = expected_header(kind, idx[0] if idx else "?", **settings)
    want.update(dict(extra))
    have = {k: header[k] for k in header if not STRUCT.match(k)}
    for k in ("DATE", "CREATOR"):
        if dates and k not in want:
            need(k in have, f"{what} header has no {k}")
            if k == "DATE":
                age = abs((datetime.datetime.fromisoformat(have[k]) - datetime.datetime.now(datetime.UTC).replace(tzinfo=None)).total_seconds())
                need(age < 3600, lambda: f"{what} DATE = {have[k]}")
        if k not in want:
            have.pop(k, None)
    for k in skip:
        have.pop(k, None), want.pop(k, None)
    low = {k.upper(): v for k, v in want.items()}
    missing = set(low) - set(have)
    more = set(have) - set(low)
    need(not missing and not more, lambda: f"{what} header lacks {sorted(missing)}, has additional {sorted((k, have[k]) for k in more)}")
    for k in low:
        need(same_card(have[k], low[k]), lambda: f"{what} header {k} = {short(have[k])}, expected {low[k]!r}")


def same_card(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-14)
    return a == b and isinstance(a, bool) == isinstance(b, bool)
