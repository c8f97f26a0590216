"""Reference distributions on the unit scale, from the declared parameters."""
from __future__ import annotations

import math

import numpy as np
from scipy import stats

from rv.model import HP


def unit_cdf(d):
    """CDF on the unit scale of the (log-)scaled range, or None if not claimed."""
    hp = HP(d)
    k = d["k"]
    if k in ("ufloat", "uint"):
        return lambda x: np.clip(x, 0, 1)
    if k in ("bfloat", "bint"):
        return lambda x: stats.beta(d["alpha"], d["beta"]).cdf(x)
    if k in ("nfloat", "nint") and not hp.log:
        s = d["sigma"] / (hp.hi - hp.lo)
        m = (d["mu"] - hp.lo) / (hp.hi - hp.lo)
        return lambda x: stats.truncnorm((0 - m) / s, (1 - m) / s, loc=m, scale=s).cdf(x)
    return None


def unit_pdf(d):
    hp = HP(d)
    k = d["k"]
    if k in ("ufloat", "uint"):
        return lambda x: np.where((x >= 0) & (x <= 1), 1.0, 0.0)
    if k in ("bfloat", "bint"):
        return lambda x: stats.beta(d["alpha"], d["beta"]).pdf(x)
    if k in ("nfloat", "nint") and not hp.log:
        s = d["sigma"] / (hp.hi - hp.lo)
        m = (d["mu"] - hp.lo) / (hp.hi - hp.lo)
        return lambda x: stats.truncnorm((0 - m) / s, (1 - m) / s, loc=m, scale=s).pdf(x)
    return None


def weights(d):
    """Probabilities of the choices."""
    hp = HP(d)
    n = len(hp.choices)
    w = d.get("weights") if d["k"] == "cat" else None
    if w is None:
        return [1 / n] * n
    t = math.fsum(w)
    return [x / t for x in w]


def count_ok(count, n, p) -> bool:
    """A count with n draws of probability p; errs less than once in 1e10."""
    if p == 0:
        return count == 0
    return abs(count - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 10


def dkw(n) -> float:
    """Distance of an empirical CDF that is exceeded less than once in 1e12."""
    return math.sqrt(math.log(2e12) / (2 * n))
