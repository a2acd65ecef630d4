"""Boring plain-Python reference models (no numpy in the deciding arithmetic)."""
from __future__ import annotations

import math

UNDER = -(2**63)
OVER = 2**63 - 1


def bin_of(x, edges):
    """Index of the bin [e_i, e_i+1) containing x, UNDER / OVER / OVER for nan."""
    if x != x:
        return OVER
    if x < edges[0]:
        return UNDER
    if x >= edges[-1]:
        return OVER
    for i in range(len(edges) - 1):
        if edges[i] <= x < edges[i + 1]:
            return i
    raise ValueError((x, edges))


def hist_bin(x, edges):
    """Index of the histogram bin (last bin closed), None if outside or nan."""
    if x != x or x < edges[0] or x > edges[-1]:
        return None
    if x == edges[-1]:
        return len(edges) - 2
    return bin_of(x, edges)


def quantile(sorted_values, q):
    """Linear interpolation between order statistics, 0 <= q <= 1."""
    n = len(sorted_values)
    pos = q * (n - 1)
    k = int(math.floor(pos))
    if k >= n - 1:
        return float(sorted_values[-1])
    f = pos - k
    a, b = float(sorted_values[k]), float(sorted_values[k + 1])
    if a == b:
        return a
    return a + (b - a) * f


def cone(a):
    """Solid angle of a cone with half opening angle a (rad)."""
    return 4 * math.pi * math.sin(a / 2) ** 2


def ring(lo, hi):
    """Solid angle between two cones (rad), without cancellation."""
    return 4 * math.pi * math.sin((hi - lo) / 2) * math.sin((hi + lo) / 2)


def li_ma(n_on, n_off, alpha):
    if n_on + n_off == 0:
        return 0.0
    if n_on < alpha * n_off:
        return 0.0
    from fractions import Fraction

    def xlog(n, num, den):
        # n * ln(num/den) with a good conditioning around num == den
        if n == 0:
            return 0.0
        ratio = Fraction(num) / Fraction(den)
        r = float(ratio - 1)
        return float(n) * (math.log1p(r) if abs(r) < 0.5 else math.log(float(ratio)))

    on, off, a = Fraction(n_on), Fraction(n_off), Fraction(alpha)
    tot = on + off
    t = xlog(on, (1 + a) * on, a * tot) + xlog(off, (1 + a) * off, tot)
    return math.sqrt(2) * math.sqrt(max(t, 0.0))


def li_ma_excess(excess, n_off, alpha):
    """Li & Ma significance of a non-negative excess over alpha * n_off (floats, well conditioned)."""
    if excess <= 0:
        return 0.0
    on = excess + alpha * n_off
    tot = on + n_off

    def term(n, r):
        if n == 0:
            return 0.0
        return n * (math.log1p(r) if abs(r) < 0.5 else math.log(1 + r))

    r_on = excess / (alpha * tot)
    r_off = -excess / tot
    if n_off > 0 and r_off < -0.5:
        t_off = n_off * math.log((1 + alpha) * n_off / tot)
    else:
        t_off = term(n_off, r_off)
    if abs(r_on) < 1e-4:
        # second order series of the sum avoids the cancellation of the linear terms
        def ser(r):
            return r - r * r / 2 + r**3 / 3 - r**4 / 4 + r**5 / 5

        # linear terms: on * r_on + n_off * r_off = excess^2 / (alpha * tot)
        t = excess * excess / (alpha * tot) + on * (ser(r_on) - r_on) + n_off * (ser(r_off) - r_off)
    else:
        t = term(on, r_on) + t_off
    return math.sqrt(2 * max(t, 0.0))


def solve_increasing(fun, target):
    """Smallest x > 0 with fun(x) >= target for an increasing fun (bisection in log x)."""
    lo, hi = 1e-12, 1e-12
    while fun(hi) < target:
        lo, hi = hi, hi * 10
        if hi > 1e30:
            return float("inf")
    for _ in range(200):
        mid = math.sqrt(lo * hi)
        if fun(mid) < target:
            lo = mid
        else:
            hi = mid
        if hi / lo - 1 < 1e-13:
            break
    return hi


def rel_sensitivity(signal, n_off, alpha, min_sig=5, min_events=10, min_excess=0.05, sig_fun=None):
    """signal: excess counts at flux 1"""
    if signal != signal or n_off != n_off:
        return float("nan")
    if signal <= 0:
        return float("inf")
    fun = sig_fun or li_ma_excess
    f = solve_increasing(lambda x: fun(signal * x, n_off, alpha), min_sig)
    needed = max(min_events, min_excess * alpha * n_off)
    if signal * f < needed:
        f = needed / signal
    return f
