"""P09: densities are consistent."""
from __future__ import annotations

import numpy as np

from rv.build import make_hp
from rv.dist import unit_pdf, weights
from rv.hpgen import as_array, some_values, wide_hp
from rv.model import HP
from rv.spec import gen_hp

RULE = "a state is a distinct (definition of a hyperparameter, point) whose reported density was compared with the declared distribution"
NEEDS = [
    "verdict:non-negative", "verdict:zero-if-illegal", "verdict:value-vector-agree", "verdict:mass", "verdict:maximum", "verdict:shape", "hp:ufloat:log", "hp:uint:log",
    "hp:nfloat", "hp:nint", "hp:bfloat:log", "hp:bint", "hp:cat", "hp:ord", "hp:const", "zero-weight", "mean-below", "mean-above", "near", "log-normal-integer",
]
ASSUMPTIONS = [
    "densities of uniform floats refer to the range of values, those of normal and beta floats to the unit scale",
    "the spread of normal priors on a log scale is not claimed, only that they peak at mu and fall off on both sides",
    "beta priors with alpha and beta of at least 1",
]


def illegal_points(ref):
    if ref.choices is not None:
        return [-1.0, -0.5, len(ref.choices) + 0.0 if ref.k != "const" else 2.0, len(ref.choices) - 0.5, 0.5, np.nan, np.inf, -np.inf, 1e18]
    out = [-0.25, 1.25, -1e-3, 1 + 1e-3, np.nan, np.inf, -np.inf, 5.0]
    if ref.is_int and not ref.log and ref.hi - ref.lo <= 10000 and abs(ref.lo) <= 10000:
        s = ref.hi - ref.lo
        out += [0.5 / s, (s - 0.5) / s]
    return out


def case_hp(ctx, rng, d=None):
    d = d or (wide_hp(rng) if rng.random() < 0.4 else gen_hp(rng, "h"))
    if d["k"] in ("uint", "nint", "bint") and d["hi"] - d["lo"] > 200000:
        d["hi"] = d["lo"] + 5000
        d.pop("def", None)
        if "mu" in d:
            d["mu"], d["sigma"] = d["lo"] + 1000, 800.0
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    kind = d["k"]
    ctx.event("hp:" + kind + (":log" if d.get("log") else ""))
    if "mu" in d:
        ctx.event("mean-below" if d["mu"] < d["lo"] else "mean-above" if d["mu"] > d["hi"] else "mean-inside")
    key = repr(sorted((k, repr(v)) for k, v in d.items()))
    vals = some_values(rng, d, 40)
    if kind in ("nfloat", "nint") and ref.log and abs(ref.lo + d["sigma"] - 1) < 1e-3:
        p = hp.pdf_values(as_array(vals))
        ctx.check(float(p.max()) > 0 and np.isfinite(hp.get_max_density()), "maximum", lambda: f"{p.max()}, {hp.get_max_density()}", mech="log-normal-zero-spread")
        return
    if rng.random() < 0.5:
        hp.get_max_density()  # either may be asked first
    p = np.asarray(hp.pdf_values(as_array(vals)), dtype=float)
    ctx.check(p.shape == (len(vals),), "count", lambda: f"{p.shape}")
    ctx.check(bool(np.isfinite(p).all()) and bool((p >= 0).all()), "non-negative", lambda: f"{list(zip(vals, p))}")
    x = np.array([float(hp.to_vector(v)) for v in vals])
    q = np.asarray(hp.pdf_vector(x), dtype=float)
    ctx.check(np.allclose(p, q, rtol=1e-9, atol=1e-300), "value-vector-agree", lambda: f"{list(zip(vals, p, q))}")
    one = np.array([float(hp.pdf_values(as_array([v]))[0]) for v in vals[:15]])
    ctx.check(np.allclose(one, p[:15], rtol=1e-12), "one-or-many", lambda: f"{one} {p[:15]}")
    lst = np.asarray(hp.pdf_values(list(vals)), dtype=float)
    ctx.check(np.array_equal(lst, p), "list", lambda: f"{lst} {p}")
    for v in vals:
        ctx.state(key, repr(v))

    # illegal entries
    bad = np.array(illegal_points(ref), dtype=float)
    if ref.k == "const":
        bad = bad[bad != 1]
    z = np.asarray(hp.pdf_vector(bad), dtype=float)
    ctx.check(bool((z == 0).all()), "zero-if-illegal", lambda: f"{list(zip(bad, z))}")
    if ref.choices is None:
        out = [ref.lo - 1, ref.hi + 1, ref.hi + 1000]
        if ref.log and ref.lo - 1 <= 0:
            out = out[1:]
        z = np.asarray(hp.pdf_values(np.array(out, dtype=float)), dtype=float)
        ctx.check(bool((z == 0).all()), "zero-if-illegal", lambda: f"{out}: {z}")
    mix = np.concatenate([bad, x[:3]])
    z = np.asarray(hp.pdf_vector(mix), dtype=float)
    ctx.check(bool((z[: len(bad)] == 0).all()) and np.allclose(z[len(bad):], q[:3], rtol=1e-12), "mixed", lambda: f"{list(zip(mix, z))}")

    top = float(hp.get_max_density())
    if ref.choices is not None:
        w = np.array(weights(d))
        if (w == 0).any():
            ctx.event("zero-weight")
        ctx.check(np.allclose(p, w, rtol=1e-9), "shape", lambda: f"{list(zip(vals, p, w))}")
        ctx.check(abs(p.sum() - 1) < 1e-9, "mass", lambda: f"{p.sum()}")
        ctx.check(abs(top - w.max()) < 1e-9, "maximum", lambda: f"{top}, largest {w.max()}")
        return

    if ref.is_float:
        n = 20000
        mid = (np.arange(n) + 0.5) / n
        f = np.asarray(hp.pdf_vector(mid), dtype=float)
        scale = (ref.hi - ref.lo) if kind == "ufloat" else 1.0
        mass = f.mean() * scale
        ctx.check(abs(mass - 1) < 2e-3, "mass", lambda: f"{mass}")
        ref_pdf = unit_pdf(d)
        if ref_pdf is not None:
            want = ref_pdf(mid)
            ctx.check(np.allclose(f * scale, want, rtol=1e-6, atol=1e-9), "shape", lambda: f"off by {np.abs(f * scale - want).max()}")
        else:
            peak = min(max(ref.vec(d["mu"]), 0.0), 1.0) if d["mu"] > 0 else 0.0
            left, right = f[mid <= peak], f[mid >= peak]
            ctx.check(bool((np.diff(left) >= -1e-12).all() and (np.diff(right) <= 1e-12).all()), "shape", lambda: "does not peak at mu")
        big = max(f.max(), p.max())
        ctx.check(top >= big * (1 - 1e-9), "maximum", lambda: f"{top}, but attains {big}")
        ctx.check(big >= top * (1 - 0.02), "maximum", lambda: f"{top}, but only attains {big}")
        return

    # integers
    n = ref.size
    allv = np.arange(ref.lo, ref.hi + 1)
    f = np.asarray(hp.pdf_values(allv), dtype=float)
    ctx.check(bool((f >= 0).all()), "non-negative")
    if kind == "uint":
        ctx.check(np.allclose(f, 1 / n, rtol=1e-9), "shape", lambda: f"{f[:10]}")
        ctx.check(abs(f.sum() - 1) < 1e-6, "mass", lambda: f"{f.sum()}")
        ctx.check(abs(top - f.max()) <= 1e-9 * f.max(), "maximum", lambda: f"{top}, largest {f.max()}")
        return
    ref_pdf = unit_pdf(d)
    u = (allv - ref.lo) / (ref.hi - ref.lo) if not ref.log else (np.log(allv) - np.log(ref.lo)) / (np.log(ref.hi) - np.log(ref.lo))
    if ref_pdf is None:
        peak = ref.vec(d["mu"])
        left, right = f[u <= peak + 1e-12], f[u >= peak - 1e-12]
        ctx.check(bool((np.diff(left) >= -1e-12).all() and (np.diff(right) <= 1e-12).all()), "shape", lambda: "does not peak at mu")
        ref_pdf = fitted(u, f, peak)
        if ref_pdf is None:
            ctx.skip("flat-log-normal")
            return
        ctx.event("log-normal-integer")
    g = np.asarray(ref_pdf(u), dtype=float)
    if g.max() > 0:
        c = f.sum() / g.sum()
        ctx.check(np.allclose(f, g * c, rtol=1e-5, atol=1e-12 * f.max()), "shape", lambda: f"not proportional: {list(zip(allv, f, g * c))[:6]}")
    mass = f.sum()
    # the points it is normalised over; through rounding there can be one less
    s = [np.asarray(ref_pdf(np.arange(m) / m), dtype=float) for m in (n, n - 1) if m > 0]
    known = any(abs(mass - g.sum() / y.sum()) <= 1e-5 * mass for y in s if y.sum() > 0)
    ctx.check(abs(mass - 1) < 1e-6, "mass", lambda: f"{mass}", mech="discrete-prior-mass" if known else None)
    known = any(abs(top - y.max()) <= 1e-5 * top for y in s)
    ctx.check(abs(top - f.max()) <= 1e-6 * f.max(), "maximum", lambda: f"{top}, largest {f.max()}", mech="discrete-prior-maximum" if known else None)


def fitted(u, f, peak):
    """A normal density around the peak with the spread the densities show."""
    keep = f > f.max() * 1e-6 if f.max() > 0 else f > 0
    x, y = (u[keep] - peak) ** 2, np.log(f[keep])
    if len(x) < 2 or np.ptp(x) < 1e-12 or np.ptp(y) < 1e-6:
        return None
    slope = np.polyfit(x, y, 1)[0]
    mid = (np.arange(20000) + 0.5) / 20000
    mass = np.exp(slope * (mid - peak) ** 2).mean()
    return lambda v: np.exp(slope * (v - peak) ** 2) / mass


def case_near(ctx, rng):
    """Nearly whole entries of choices have the density of the choice they stand for."""
    d = wide_hp(rng, kinds=["cat", "ord"])
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    w = np.array(weights(d))
    for i in range(len(ref.choices)):
        x = np.array([i + e for e in (1e-14, 5e-14, -1e-14, 4e-6, -4e-6) if i or 0 < e < 1e-13])
        ok = np.asarray(hp.legal_vector(x))
        x = x[ok]
        if not len(x):
            continue
        ctx.event("near", len(x))
        got = np.asarray(hp.pdf_vector(x), dtype=float)
        ctx.check(np.allclose(got, w[i], rtol=1e-9), "near", lambda: f"{x}: {got}, but {ref.choices[i]!r} has {w[i]}")
        ctx.state("near", len(ref.choices), i, float(w[i]))


def case_fixed(ctx, rng):
    """The known findings, so that every run observes them."""
    if ctx.shard:
        return
    for d in (
        {"k": "nfloat", "name": "h", "mu": 0.6, "sigma": 0.5, "lo": 0.5, "hi": 1.0, "log": True},
        {"k": "nint", "name": "h", "mu": 2, "sigma": 3.0, "lo": 1, "hi": 10},
        {"k": "bint", "name": "h", "alpha": 2, "beta": 3, "lo": 1, "hi": 10},
    ):
        case_hp(ctx, rng, d)


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [("fixed", case_fixed, 1, 1), ("hp", case_hp, 200, 6000), ("near", case_near, 20, 500)]
