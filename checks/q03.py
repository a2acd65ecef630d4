import itertools

import numpy as np

from mc.util import NAN, eq, layouts, need, pure

SPACE = """All dispersions with 1 to 3 energy, 2 to 6 migration and 1 to 3 offset bins whose slices take all contents of a count alphabet (all compositions) in one position while the
other slices rotate, uniform and irregular migration edges, unnormalised slices (sums slightly off 1 and well below/above), dtypes and layouts; every slice is compared
with a linear interpolation of its cumulative distribution."""
ASSUMPTIONS = ["slices whose cumulative distribution is flat within 1e-9 of a requested quantile are judged only by bounds (any value of the flat part is a quantile)",
               "quantiles below the first upper edge are reported as this edge, quantiles above the total as the last one"]

P = (0.15865525393145707, 0.5, 0.8413447460685429)
MIGRA = {2: [0.5, 1.0, 2.0], 3: [0.2, 0.9, 1.1, 3.0], 4: [0.0, 0.5, 1.0, 1.5, 2.0], 6: [0.1, 0.5, 0.8, 1.0, 1.3, 2.0, 5.0]}


def jobs(tier):
    return [dict(kind="grid", nm=nm, ne=ne, nf=nf, deep=tier == "thorough") for nm in MIGRA for ne in (1, 2, 3) for nf in (1, 2, 3)] + [dict(kind="variants")]


def interp(p, cdf, edges):
    """lowest and highest quantile"""
    if p <= cdf[0]:
        return (edges[0], edges[0]) if p < cdf[0] - 1e-9 else bounds(p, cdf, edges)
    if p > cdf[-1]:
        return edges[-1], edges[-1]
    return bounds(p, cdf, edges)


def bounds(p, cdf, edges):
    near = [e for c, e in zip(cdf, edges) if abs(c - p) <= 1e-9]
    if near:
        return near[0] * (1 - 1e-6), near[-1] * (1 + 1e-6)
    for k in range(1, len(cdf)):
        if cdf[k - 1] < p < cdf[k]:
            f = (p - cdf[k - 1]) / (cdf[k] - cdf[k - 1])
            x = edges[k - 1] + f * (edges[k] - edges[k - 1])
            return x, x
    return edges[0], edges[0]


def compare(disp, migra, arr=None, again=False, rtol=1e-9):
    from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion

    bias, resolution = pure(energy_bias_resolution_from_energy_dispersion, disp if arr is None else arr, np.array(migra), again=again)
    shape = (disp.shape[0], disp.shape[2])
    need(np.shape(bias) == shape and np.shape(resolution) == shape, f"shapes {np.shape(bias)} {np.shape(resolution)}, expected {shape}")
    w = [b - a for a, b in zip(migra[:-1], migra[1:])]
    for i, k in np.ndindex(*shape):
        cdf, s = [], 0.0
        for j in range(len(w)):
            s += float(disp[i, j, k]) * w[j]
            cdf.append(s)
        if s == 0:
            need(bias[i, k] != bias[i, k] and resolution[i, k] != resolution[i, k], f"empty slice {i}, {k}: {bias[i, k]} {resolution[i, k]}")
            continue
        (l1, l2), (m1, m2), (h1, h2) = [interp(p, cdf, migra[1:]) for p in P]
        b, r = float(bias[i, k]), float(resolution[i, k])
        t = rtol * max(migra)
        need(m1 - 1 - t <= b <= m2 - 1 + t, f"slice {i}, {k}: bias {b}, expected {m1 - 1} .. {m2 - 1}, cumulative {cdf}")
        need(0.5 * (h1 - l2) - t <= r <= 0.5 * (h2 - l1) + t, f"slice {i}, {k}: resolution {r}, expected {0.5 * (h1 - l2)} .. {0.5 * (h2 - l1)}, cumulative {cdf}")
    return bias.tolist(), resolution.tolist()


def make(contents, ne, nf, migra):
    c = np.array(contents, dtype=float).reshape(ne, nf, -1)
    c = np.moveaxis(c, 2, 1)
    s = c.sum(axis=1, keepdims=True)
    return np.where(s > 0, c / np.where(s > 0, s, 1), 0) / np.diff(migra)[None, :, None]


def run(job, rec):
    if job["kind"] == "variants":
        for nm, migra in MIGRA.items():
            cs = [c for c in itertools.product((0, 1, 2, 5), repeat=nm)][:: 1 if nm < 4 else 17]
            for i in range(len(cs) - 6):
                disp = make(cs[i:i + 6], 3, 2, migra)
                for scale in (1 - 1e-7, 1 + 1e-7, 0.7, 0.3, 0.1, 1.5, 10.0):
                    with rec.case("migration", migra, "content", cs[i:i + 6], "times", scale, steps=6):
                        compare(disp * scale, migra)
            disp = make((cs * 6)[:6], 2, 3, migra)
            for name, arr in [*layouts(disp), ("fortran", np.asfortranarray(disp))]:
                if name.startswith("int"):
                    continue
                with rec.case("layout", name, nm):
                    compare(disp, migra, arr, again=True)
            with rec.case("float32", nm):
                compare(disp, migra, disp.astype("f4"), rtol=1e-5)
        for ne, nm, nf in ((20, 60, 5), (1, 200, 30), (50, 2, 1), (4, 31, 7)):
            with rec.case("size", ne, nm, nf, steps=ne * nf):
                migra = np.geomspace(0.2, 5, nm + 1).tolist()
                c = [[(i * 31 + j * 17 + j * j) % 13 for j in range(nm)] for i in range(ne * nf)]
                compare(make(c, ne, nf, migra), migra, again=True)
        # composition with the event based dispersion
        import astropy.units as u
        from astropy.table import QTable

        from pyirf.irf import energy_dispersion

        for n in (1, 10, 500):
            with rec.case("dispersion of", n, "events", steps=n):
                t = QTable()
                t["true_energy"] = (0.3 + (0.37 * np.arange(n)) % 5) * u.TeV
                t["reco_energy"] = t["true_energy"] * (0.25 + (0.713 * np.arange(n)) % 1.6)
                t["true_source_fov_offset"] = ((0.29 * np.arange(n)) % 3) * u.deg
                migra = np.linspace(0.2, 2, 19)
                d = energy_dispersion(t, [0.1, 1, 3, 10] * u.TeV, [0, 1, 2] * u.deg, migra)
                compare(np.asarray(d), migra.tolist(), again=True)
        return
    nm, ne, nf = job["nm"], job["ne"], job["nf"]
    migra = MIGRA[nm]
    al = (0, 1, 2, 5) if nm < 4 else (0, 1, 3) if nm == 4 else (0, 2)
    cs = list(itertools.product(al, repeat=nm))
    for n, c in enumerate(cs):
        for pos in range(ne * nf):
            content = [cs[(5 * n + 7 * i + 1) % len(cs)] for i in range(ne * nf)]
            content[pos] = c
            with rec.case("migration", migra, "content", content, "shape", (ne, nm, nf)):
                rec.outcome(repr(compare(make(content, ne, nf, migra), migra, again=n % 50 == 0)))
