"""Alphabet of discretised PDFs (templates) for the interpolation checks."""
import math

import numpy as np

EDGES = {
    "uniform": np.linspace(0.0, 2.0, 6),
    "log": np.array([0.1, 0.2, 0.4, 0.8, 1.6, 3.2]),
    "narrow": np.array([0.0, 1.5, 1.75, 2.0, 2.25, 4.0]),
    "small": np.array([0.0, 1.0, 2.0, 4.0, 8.0, 10.0]) * 1e-6,
    "giant": np.array([1.0, 2.0, 4.0, 8.0, 16.0, 32.0]) * 1e10,
    "offset": np.array([0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75]),
}
OFFSETS = {  # source offset bins in deg
    "uniform": np.array([0.0, 0.1, 0.2, 0.3, 0.4, 0.5]),
    "log": np.array([0.0, 0.1, 0.2, 0.4, 0.8, 1.6]),
    "away": np.array([0.5, 1.0, 2.0, 2.5, 3.0]),
    "arcsec": np.array([0.0, 0.5, 1.0, 2.0, 4.0, 10.0]) / 3600,
    "huge": np.array([0.0, 20.0, 60.0, 100.0, 180.0]),
}


def shapes(nb):
    """Relative bin contents: empty, single bins, flat, ramps, two peaks, gap, few events."""
    res = {"empty": np.zeros(nb)}
    for i in range(nb):
        res[f"bin{i}"] = np.eye(nb)[i]
    res["flat"] = np.ones(nb)
    res["peak"] = np.array([1.0 + 4 * math.exp(-((i - nb / 2) ** 2)) for i in range(nb)])
    res["ramp"] = np.arange(1.0, nb + 1)
    two = np.zeros(nb)
    two[0], two[-1] = 1, 3
    res["gap"] = two
    # one peak and few events everywhere else, less than the resolution of quantile interpolation
    res["outliers"] = np.full(nb, 1e-5)
    res["outliers"][nb // 2] = 1
    pair = np.zeros(nb)
    pair[1:3] = 2, 1
    res["pair"] = pair
    return res


def widths(edges, solid):
    """Width (or solid angle, edges in deg) of each bin, computed bin by bin."""
    if not solid:
        return np.array([b - a for a, b in zip(edges[:-1], edges[1:])])
    r = [math.radians(x) for x in edges]
    # cos a - cos b without cancellation
    return np.array([4 * math.pi * math.sin((a + b) / 2) * math.sin((b - a) / 2) for a, b in zip(r[:-1], r[1:])])


def pdf(shape, w):
    s = float(np.sum(shape))
    return np.asarray(shape) / w / s if s > 0 else np.zeros(len(w))


def mean(edges, shape):
    mids = (np.asarray(edges[:-1]) + np.asarray(edges[1:])) / 2
    return float(np.sum(mids * shape) / np.sum(shape))
