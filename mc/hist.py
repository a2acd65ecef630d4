"""Histories of events filled into n-dimensional binnings: enumeration and reference counting."""
import itertools

import numpy as np

from .models import hist_bin
from .util import NAN, multisets, orders, pump


def sharp(edges, nan=True):
    """Values at, next to and between the edges, outside and nan."""
    span = edges[-1] - edges[0]
    res = [edges[0] - 0.5 * span if edges[0] <= 0 else edges[0] * 0.5, edges[0]]
    for a, b in zip(edges[:-1], edges[1:]):
        res += [0.5 * (a + b), b]
    res += [edges[-1] + 0.5 * span]
    return res + [NAN] if nan else res


def coarse(edges):
    """One value in the first and last bin and one outside."""
    res = [0.75 * edges[0] + 0.25 * edges[1]]
    if len(edges) > 2:
        res.append(0.3 * edges[-2] + 0.7 * edges[-1])
    return res + [edges[-1] + 0.25 * (edges[-1] - edges[0])]


def count(events, axes):
    """Sum of weights per bin; events are (value of axis 0, ..., weight)."""
    h = np.zeros([len(e) - 1 for e in axes])
    for ev in events:
        idx = tuple(hist_bin(v, e) for v, e in zip(ev, axes))
        if None not in idx:
            h[idx] += ev[len(axes)]
    return h


def histories(axes, depth=2, weights=(1.0,), sharp_axes=True, pumps=(50, 2000), nan=True):
    """(kind, events): empty history, every single sharp event, all multisets of coarse events, pumped histories."""
    yield "empty", []
    full = list(itertools.product(*[sharp(e, nan) if sharp_axes else coarse(e) for e in axes]))
    for i, v in enumerate(full):
        yield "single", [v + (weights[i % len(weights)],)]
    alpha = [v + (weights[i % len(weights)],) for i, v in enumerate(itertools.product(*[coarse(e) for e in axes]))]
    if len(weights) > 1:
        alpha += [alpha[0][:-1] + (weights[(0 + 1) % len(weights)],)]
    for h in multisets(alpha, depth, 2):
        for k, o in enumerate(orders(h)):
            yield f"order {k}", o
    base = [v + (weights[i % len(weights)],) for i, v in enumerate(full)]
    for n in pumps:
        yield f"pumped to {n}", pump(base, n)
        yield f"pumped to {n}, reversed", pump(base, n)[::-1]
    # one event repeated often, all others once
    if pumps and max(pumps) >= 1000:
        for i, v in enumerate(alpha):
            yield f"event {i} repeated", alpha[:i] + [v] * (max(pumps) + 1000) + alpha[i + 1:]
