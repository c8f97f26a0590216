"""Random single hyperparameters with wider ranges than those used in spaces."""
from __future__ import annotations

import numpy as np

from rv.model import HP, INTS
from rv.spec import gen_choices, gen_hp, legal_value, mean_outside, nice

KINDS = ["cat", "ord", "const", "uint", "ufloat", "nint", "nfloat", "bint", "bfloat"]

HUGE = [(0, 2**31), (0, 2**32), (-(2**31), 2**31), (0, 10**11), (-(10**10), 10**10), (2**40, 2**40 + 5), (-(10**11), -(10**9)), (5, 2**31 - 1)]
HUGE_LOG = [(1, 2**31), (1, 10**10), (1000, 2**33), (2**20, 2**32), (10**6, 10**6 + 3)]


def wide_hp(rng, name="h", kinds=None):
    d = gen_hp(rng, name, kinds or KINDS)
    r = rng.random()
    if d["k"] == "cat" and r < 0.2:
        n = rng.choice([20, 50, 60])
        d = {"k": "cat", "name": name, "choices": gen_choices(rng, n, ["str", "int", "float"])}
        if rng.random() < 0.5:
            d["weights"] = [rng.choice([0.0, 0.1, 1, 3]) for _ in range(n)]
            d["weights"][rng.randrange(n)] = 1.0
    elif d["k"] == "ord" and r < 0.2:
        d = {"k": "ord", "name": name, "seq": gen_choices(rng, rng.choice([12, 30]), ["str", "int", "float"])}
    elif d["k"] not in ("cat", "ord", "const") and r < 0.5:
        d.pop("def", None)
        integer = d["k"] in INTS
        log = d["log"]
        if integer:
            lo = rng.choice([1, 2, 7, 1000] if log else [0, 1, -1, -17, 10**6, -(10**9)])
            hi = lo + rng.choice([1, 2, 3, 30, 255, 10**6 - 1, 10**6] + ([] if d["k"] != "uint" else [2**31, 10**10]))
        elif log:
            lo = rng.choice([1e-7, 1e-5, 0.3, 1.0, 123.5, 1e4])
            hi = nice(lo * rng.choice([1.01, 3.0, 1e3, 1e4]))
        else:
            lo = rng.choice([0.0, -1e-3, -123.456, 1e5, -1e8])
            hi = nice(lo + rng.choice([1e-4, 0.25, 3.0, 1e6]), 12)
        if d["k"] == "uint" and rng.random() < 0.3:
            lo, hi = rng.choice(HUGE_LOG if log else HUGE)
        d["lo"], d["hi"] = lo, hi
        if "mu" in d:
            d["mu"] = rng.choice([lo, hi, (lo + hi) // 2 if integer else nice((lo + hi) / 2, 12)])
            if not integer:
                d["mu"] = min(max(d["mu"], lo), hi)
            d["sigma"] = nice((hi - lo) * rng.choice([0.05, 0.3, 2.0]), 3)
            if rng.random() < 0.25:
                mean_outside(rng, d)
        if rng.random() < 0.5:
            d["def"] = legal_value(rng, d)
    return d


def some_values(rng, d, n=25):
    """All values of a small hyperparameter, else ends and a few others."""
    hp = HP(d)
    vals = hp.all_values(200)
    if vals is not None:
        return vals
    out = [hp.lo, hp.hi]
    if hp.is_int:
        out += [hp.lo + 1, hp.hi - 1]
    for _ in range(3 * n):
        v = legal_value(rng, d)
        if v not in out and len(out) < n:
            out.append(v)
    return out


def as_array(values):
    """An array holding the values without numpy changing their type."""
    arr = np.asarray(values)
    if arr.dtype.kind in "US" and not all(isinstance(v, str) for v in values) or arr.tolist() != list(values):
        arr = np.array(values, dtype=object)
    return arr
