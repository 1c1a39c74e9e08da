"""Goodness of fit: chi-square with small cells merged."""
from __future__ import annotations

import math


def _gammaq(a, x):
    """Regularized upper incomplete gamma function."""
    if x <= 0:
        return 1.0
    if x < a + 1:
        s = t = 1.0 / a
        n = a
        for _ in range(10000):
            n += 1
            t *= x / n
            s += t
            if t < s * 1e-15:
                break
        return max(0.0, 1.0 - s * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    b = x + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1 / d
        e = d * c
        h *= e
        if abs(e - 1) < 1e-15:
            break
    return h * math.exp(-x + a * math.log(x) - math.lgamma(a))


def fit(counts, probs):
    """p-value of the counts under probs (dict outcome -> probability); outcomes outside: 0."""
    n = sum(counts.values())
    for k in counts:
        if probs.get(k, 0) <= 0:
            return 0.0
    # which cells are merged must not depend on what was observed
    cells = sorted((p * n, str(k), counts.get(k, 0)) for k, p in probs.items() if p > 0)
    merged, e, o = [], 0.0, 0
    for pe, _, ob in cells:
        e += pe
        o += ob
        if e >= 12:
            merged.append((e, o))
            e, o = 0.0, 0
    if merged:
        merged[-1] = (merged[-1][0] + e, merged[-1][1] + o)
    if len(merged) < 2:
        return 1.0
    x = sum((o - e) ** 2 / e for e, o in merged)
    return _gammaq((len(merged) - 1) / 2, x / 2)
