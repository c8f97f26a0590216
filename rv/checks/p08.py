"""P08: hyperparameters are sampled from the declared distribution."""
from __future__ import annotations

from collections import Counter

import numpy as np

from rv.build import make_hp
from rv.dist import count_ok, dkw, unit_cdf, weights
from rv.hpgen import wide_hp
from rv.model import HP, index_in
from rv.spec import gen_hp

RULE = "a state is a distinct (definition of a hyperparameter, way of sampling) whose drawn values were compared with the declared distribution"
NEEDS = [
    "draws", "verdict:cdf", "verdict:frequency", "verdict:reachable", "verdict:in-domain", "zero-weight", "hp:ufloat:log", "hp:uint:log", "range:huge", "hp:nfloat", "hp:nint",
    "hp:bfloat:log", "hp:bint", "hp:cat", "hp:ord", "hp:const", "way:value", "way:vector", "way:rvs",
]
ASSUMPTIONS = [
    "statistical bounds err less than once in 1e10 verdicts",
    "the spread of normal priors on a log scale is not claimed, there only range and agreement with the reported density",
    "how a continuous prior is cut into integers is only claimed up to one unit",
]


def draw(ctx, rng, hp, n, way, seed):
    if way == "value":
        return hp.sample_value(n, seed=np.random.RandomState(seed))
    if way == "vector":
        return hp.to_value(hp.sample_vector(n, seed=np.random.RandomState(seed)))
    if way == "rvs":
        return hp.rvs(n, random_state=rng.choice([seed, np.random.RandomState(seed), np.random.default_rng(seed)]))
    rs = np.random.RandomState(seed)
    return [hp.sample_value(seed=rs) for _ in range(n)]


def case_hp(ctx, rng, wide=False, d=None):
    d = d or (wide_hp(rng) if wide else gen_hp(rng, "h"))
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    ctx.event("hp:" + d["k"] + (":log" if d.get("log") else ""))
    if ref.is_int and ref.size > 2**31:
        ctx.event("range:huge")
    way = rng.choice(["value", "vector", "rvs", "single"])
    n = 20000 if way != "single" else 1500
    if ref.k in ("cat", "ord", "const") and way == "single":
        n = 3000
    ctx.event("way:" + way)
    seed = rng.randrange(2**31)
    vals = draw(ctx, rng, hp, n, way, seed)
    ctx.event("draws", len(vals))
    ctx.check(len(vals) == n, "count", lambda: f"{len(vals)} instead of {n}")
    key = repr(sorted((k, repr(v)) for k, v in d.items()))
    ctx.state(key, way)

    if ref.choices is not None:
        cnt = Counter(index_in(v, ref.choices) for v in (vals.tolist() if hasattr(vals, "tolist") else vals))
        ctx.check(-1 not in cnt, "in-domain", lambda: f"{cnt[-1]} values are not among {ref.choices}")
        for i, p in enumerate(weights(d)):
            if p == 0:
                ctx.event("zero-weight")
            ctx.check(count_ok(cnt[i], n, p), "frequency", lambda: f"{ref.choices[i]!r}: {cnt[i]} of {n}, expected {p}")
            if n * p > 40:
                ctx.check(cnt[i] > 0, "reachable", lambda: f"{ref.choices[i]!r} never drawn, p={p}")
        return

    a = np.asarray(vals, dtype=float)
    bad = a[~((a >= ref.lo) & (a <= ref.hi))]
    ctx.check(len(bad) == 0, "in-domain", lambda: f"{bad[:5]} not in {ref.lo}..{ref.hi}")
    if ref.is_int:
        ctx.check(bool((a == np.rint(a)).all()), "in-domain", lambda: "not whole")
    if len(bad):
        return
    eps = dkw(n)
    cdf = unit_cdf(d)
    if ref.log:
        unit = lambda v: (np.log(v) - np.log(ref.lo)) / (np.log(ref.hi) - np.log(ref.lo))  # noqa: E731
    else:
        unit = lambda v: (v - ref.lo) / (ref.hi - ref.lo)  # noqa: E731
    if d["k"] in ("nfloat", "nint") and ref.log and abs(ref.lo + d["sigma"] - 1) < 1e-3:
        # the spread comes out as (nearly) zero
        ctx.check(len(np.unique(a)) > n // 50, "spread", lambda: f"{np.unique(a)[:5]}", mech="log-normal-zero-spread")
        return
    if ref.is_float:
        x = np.sort(unit(a))
        f = cdf(x) if cdf is not None else own_cdf(hp, x)
        up = np.arange(1, n + 1) / n - f
        lo = f - np.arange(0, n) / n
        dist = max(up.max(), lo.max())
        ctx.check(dist <= eps + 1e-3, "cdf", lambda: f"distance {dist:.4f} > {eps:.4f}")
        if cdf is not None:
            dist = np.abs(own_cdf(hp, x) - f).max()
            ctx.check(dist <= 2e-3, "own-density", lambda: f"distance of the reported density {dist:.4f}")
        return
    # integers
    size = ref.size
    if d["k"] == "uint" and not ref.log:
        if size <= 200:
            cnt = Counter(a.astype(int).tolist())
            for v in range(ref.lo, ref.hi + 1):
                ctx.check(count_ok(cnt[v], n, 1 / size), "frequency", lambda: f"{v}: {cnt[v]} of {n}, expected 1/{size}")
                if n / size > 60:
                    ctx.check(cnt[v] > 0, "reachable", lambda: f"{v} never drawn")
        s = np.sort(a)
        grid = np.linspace(ref.lo, ref.hi, 200).round()
        emp = np.searchsorted(s, grid, side="right") / n
        want = (grid - ref.lo + 1) / size
        dist = np.abs(emp - want).max()
        ctx.check(dist <= eps, "cdf", lambda: f"distance {dist:.4f} > {eps:.4f}")
        return
    if cdf is not None:
        s = np.sort(a)
        grid = np.unique(np.linspace(ref.lo, ref.hi, 400).round())
        emp = np.searchsorted(s, grid, side="right") / n
        low = cdf(unit(np.maximum(grid - 1, ref.lo)))
        low = np.where(grid - 1 < ref.lo, 0.0, low)
        high = np.where(grid + 1 > ref.hi, 1.0, cdf(unit(np.minimum(grid + 1, ref.hi))))
        bad = (emp < low - eps) | (emp > high + eps)
        ctx.check(not bad.any(), "cdf", lambda: [(int(g), e, x, y) for g, e, x, y, b in zip(grid, emp, low, high, bad) if b][:4])
    flat = d["k"] == "uint" or (d["k"] == "nint" and d["sigma"] >= (ref.hi - ref.lo) and not ref.log)
    if flat and size <= 25 and n >= 20000:
        seen = set(a.astype(int).tolist())
        miss = [v for v in range(ref.lo, ref.hi + 1) if v not in seen]
        ctx.check(not miss, "reachable", lambda: f"{miss} never drawn in {n}")


def own_cdf(hp, x):
    """CDF of the density the hyperparameter itself reports."""
    g = np.linspace(0, 1, 4001)
    mid = (g[1:] + g[:-1]) / 2
    p = hp.pdf_vector(mid)
    c = np.concatenate([[0.0], np.cumsum(p)])
    return np.interp(x, g, c / c[-1])


def case_wide(ctx, rng):
    case_hp(ctx, rng, wide=True)


def case_sizes(ctx, rng):
    """What comes back for each requested size."""
    d = wide_hp(rng)
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    for n in (0, 1, 2, 7):
        for f in (hp.sample_value, hp.sample_vector):
            out = f(n, seed=np.random.RandomState(n))
            ctx.check(np.shape(out) == (n,), "count", lambda: f"{n}: {out!r}")
    v = hp.sample_value(seed=np.random.RandomState(1))
    ctx.check(np.ndim(v) == 0 or ref.choices is not None, "scalar", lambda: f"{v!r}")
    ctx.check(bool(hp.legal_value(v)), "in-domain", lambda: f"{v!r}")
    x = hp.sample_vector(seed=np.random.RandomState(1))
    ctx.check(np.ndim(x) == 0 and bool(hp.legal_vector(x)), "scalar", lambda: f"{x!r}")
    for xx in hp.sample_vector(40, seed=np.random.RandomState(2)):
        ctx.check(bool(hp.legal_vector(float(xx))), "in-domain", lambda: f"vector {xx!r}")
    r = hp.rvs(3)
    ctx.check(len(r) == 3 and all(hp.legal_value(v.item() if hasattr(v, "item") else v) for v in r), "in-domain", lambda: f"{r!r}")
    r = hp.rvs()
    ctx.check(bool(hp.legal_value(r)), "in-domain", lambda: f"{r!r}")


def case_fixed(ctx, rng):
    """The known finding, so that every run observes it."""
    if not ctx.shard:
        case_hp(ctx, rng, d={"k": "nfloat", "name": "h", "mu": 0.6, "sigma": 0.5, "lo": 0.5, "hi": 1.0, "log": True})


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("fixed", case_fixed, 1, 1),
    ("sizes", case_sizes, 40, 1000),
    ("hp", case_hp, 60, 1500),
    ("wide", case_wide, 60, 1500),
]
