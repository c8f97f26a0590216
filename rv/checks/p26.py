"""P26: numeric helper functions match their definition."""
from __future__ import annotations

import math

import numpy as np
from ConfigSpace.functional import (
    arange_chunked, center_range, is_close_to_integer, is_close_to_integer_single, linspace_chunked, normalize, quantize, quantize_log, rescale, scale, split_arange,
)

RULE = "a state is a distinct (helper, arguments) whose result was compared with the definition"
NEEDS = [
    "verdict:arange", "verdict:arange-sizes", "verdict:linspace", "verdict:linspace-sizes", "verdict:split", "verdict:center", "verdict:inverse", "verdict:monotone", "verdict:rescale",
    "verdict:quantize-level", "verdict:quantize-contains", "verdict:quantize-ends", "verdict:quantize-idempotent", "verdict:quantize-log-level", "verdict:quantize-log-contains",
    "verdict:quantize-log-idempotent", "verdict:integer", "verdict:arguments-untouched", "arange:several-chunks", "arange:step", "linspace:several-chunks", "linspace:endpoint",
]
ASSUMPTIONS = ["quantising needs two levels or more; points within rounding of the border between two bins are not judged"]


def case_ranges(ctx, rng):
    start = rng.choice([0, 1, -7, 100, -1000])
    n = rng.choice([1, 2, 3, 5, 10, 17, 64, 100, 1000])
    step = rng.choice([1, 1, 1, 2, 3, 7])
    stop = start + n
    size = rng.choice([1, 2, 3, 5, 7, 10, n, n + 1, 1000])
    want = np.arange(start, stop, step)
    chunks = list(arange_chunked(start, stop, step, chunk_size=size))
    if len(chunks) > 1:
        ctx.event("arange:several-chunks")
    if step > 1:
        ctx.event("arange:step")
    got = np.concatenate(chunks)
    ctx.check(got.shape == want.shape and (got == want).all(), "arange", lambda: f"{start} {stop} {step} {size}: {got}")
    ctx.check(all(0 < len(c) <= size for c in chunks) and all(len(c) == size for c in chunks[:-1]), "arange-sizes", lambda: f"{[len(c) for c in chunks]} {size}")
    ctx.state("arange", start, stop, step, size)

    a = rng.choice([0.0, -1.0, 0.1, 5.0, -100.0, 1e-3])
    b = a + rng.choice([1.0, 0.3, 10.0, 1e4])
    num = rng.choice([2, 3, 5, 11, 50, 101, 1000])
    size = rng.choice([1, 2, 3, 7, 10, 49, 50, 51, num, 5000])
    end = rng.random() < 0.5
    want = np.linspace(a, b, num, endpoint=end)
    chunks = list(linspace_chunked(a, b, num, chunk_size=size, endpoint=end))
    if len(chunks) > 1:
        ctx.event("linspace:several-chunks")
        if end:
            ctx.event("linspace:endpoint")
    got = np.concatenate(chunks)
    ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12 * (abs(a) + abs(b))), "linspace", lambda: f"{a} {b} {num} {size} {end}: {got}")
    ctx.check(all(0 < len(c) <= size for c in chunks), "linspace-sizes", lambda: f"{[len(c) for c in chunks]} {size}")
    ctx.state("linspace", a, b, num, size, end)

    lo = rng.choice([0, -5, 3])
    hi = lo + rng.choice([1, 2, 3, 10, 100])
    pivot = rng.randint(lo, hi - 1)
    got = split_arange(lo, hi, pivot=pivot)
    ctx.check(sorted(got.tolist()) == [i for i in range(lo, hi) if i != pivot], "split", lambda: f"{lo} {hi} {pivot}: {got}")
    ctx.state("split", lo, hi, pivot)
    step = rng.choice([1, 1, 2, 3])
    c = rng.randint(lo, hi)
    got = list(center_range(c, lo, hi, step))
    want = [i for i in range(lo, hi + 1) if i != c and (i - c) % step == 0]
    ok = sorted(got) == want
    # nearest first on either side, taking turns while both sides last
    below, above = [x for x in got if x < c], [x for x in got if x > c]
    ok = ok and below == sorted(below, reverse=True) and above == sorted(above)
    k = 2 * min(len(below), len(above))
    ok = ok and all((got[i] < c) != (got[i + 1] < c) for i in range(0, k, 2))
    ctx.check(ok, "center", lambda: f"{c} {lo} {hi} {step}: {got}")
    ctx.state("center", c, lo, hi, step)


def bounds_of(rng):
    a = rng.choice([0, 0.0, -1, 1.0, 0.1, -10.5, 100, 1000.0])
    b = a + rng.choice([1, 1.0, 0.5, 7, 1000.0, 0.01])
    r = rng.random()
    if r < 0.2:
        return (np.float64(a), np.float64(b))
    if r < 0.3:
        return (0, 1)
    return (a, b)


def case_scaling(ctx, rng):
    g = np.random.RandomState(rng.randrange(2**31))
    bnd, to = bounds_of(rng), bounds_of(rng)
    unit = np.sort(np.concatenate([g.uniform(0, 1, rng.choice([1, 5, 30])), [0.0, 1.0]]))
    keep = unit.copy()
    x = scale(unit, to=bnd)
    w = bnd[1] - bnd[0]
    tol = 1e-11 * (abs(bnd[0]) + abs(bnd[1]) + w) / w
    ctx.check(np.allclose(x, float(bnd[0]) + unit * float(w), rtol=1e-12, atol=1e-12), "scale", lambda: f"{bnd} {unit} {x}")
    back = normalize(x, bounds=bnd)
    ctx.check(np.allclose(back, unit, rtol=0, atol=tol), "inverse", lambda: f"{bnd} {unit} {back}")
    ctx.check((np.diff(x) >= 0).all() and (np.diff(back) >= -tol).all(), "monotone", lambda: f"{bnd}")
    xs = x.copy()
    y = rescale(x, frm=bnd, to=to)
    want = float(to[0]) + unit * float(to[1] - to[0])
    t2 = tol * float(to[1] - to[0]) + 1e-11 * (abs(to[0]) + abs(to[1]))
    ctx.check(np.allclose(y, want, rtol=0, atol=t2), "rescale", lambda: f"{bnd} {to} {y} {want}")
    ctx.check((np.diff(y) >= -1e-12).all(), "monotone", "rescale")
    z = rescale(y, frm=to, to=bnd)
    tz = 1e-10 * (abs(to[0]) + abs(to[1]) + 1) / float(to[1] - to[0]) * float(w) + 1e-10 * (abs(bnd[0]) + abs(bnd[1]))
    ctx.check(np.allclose(z, x, rtol=0, atol=tz), "inverse", lambda: f"rescale {bnd} {to} {x} {z}")
    ctx.check((x == xs).all() and (unit == keep).all(), "arguments-untouched")
    ctx.check(y.dtype == np.float64 and back.dtype == np.float64, "dtype")
    ctx.state("scale", repr(bnd), repr(to), len(unit))
    ints = np.array([int(bnd[0]), int(bnd[0]) + 3])
    nb = (int(bnd[0]), int(bnd[0]) + 3)
    ctx.check(np.allclose(normalize(ints, bounds=nb), [0, 1]), "inverse", "ints")


def case_quantize(ctx, rng):
    g = np.random.RandomState(rng.randrange(2**31))
    bnd = bounds_of(rng)
    bins = rng.choice([2, 3, 4, 5, 10, 33, 100, 1001])
    lo, w = float(bnd[0]), float(bnd[1] - bnd[0])
    unit = np.concatenate([g.uniform(0, 1, 40), [0.0, 1.0], (np.arange(min(bins, 40)) + 0.5) / bins])
    x = unit * w + lo
    keep = x.copy()
    q = quantize(x, bounds=bnd, bins=bins)
    levels = lo + w * np.arange(bins) / (bins - 1)
    tol = 1e-10 * (abs(lo) + w)
    err = np.abs(q[:, None] - levels[None, :])
    idx = err.argmin(1)
    ctx.check((err.min(1) <= tol).all(), "quantize-level", lambda: f"{bnd} {bins} {q}")
    pos = unit * bins
    firm = (np.abs(pos - np.rint(pos)) > 1e-6 * (1 + abs(lo) / w)) | (unit == 0) | (unit == 1)
    want = np.clip(np.floor(pos), 0, bins - 1)
    ctx.skip("quantize:border", int((~firm).sum()))
    ctx.check((idx[firm] == want[firm]).all(), "quantize-contains", lambda: f"{bnd} {bins}: {x[firm][idx[firm] != want[firm]]}")
    e = quantize(np.array([float(bnd[0]), float(bnd[1])]), bounds=bnd, bins=bins)
    ctx.check(abs(e[0] - lo) <= tol and abs(e[1] - float(bnd[1])) <= tol, "quantize-ends", lambda: f"{bnd} {bins} {e}")
    if bins * (abs(lo) + w) / w < 1e6:
        q2 = quantize(q, bounds=bnd, bins=bins)
        ctx.check(np.allclose(q2, q, rtol=0, atol=tol), "quantize-idempotent", lambda: f"{bnd} {bins} {q} {q2}")
    ctx.check((x == keep).all(), "arguments-untouched")
    s = quantize(np.float64(x[0]), bounds=bnd, bins=bins)
    ctx.check(abs(float(s) - q[0]) <= tol, "quantize-single")
    ctx.state("quantize", repr(bnd), bins)

    # log scale: levels are evenly spaced on the original scale
    a = rng.choice([1, 2, 0.5, 10, 100])
    b = a + rng.choice([1, 3, 9, 99, 1000])
    bins = rng.choice([2, 3, 5, 10, 50])
    inner = rng.choice([None, (0, 1), (0.0, 1.0), (-1, 3)])
    unit = np.concatenate([g.uniform(0, 1, 30), [0.0, 1.0]])
    if inner is None:
        # values live on the bounds, which are also the slice
        x = unit * (b - a) + a
        q = quantize_log(x, bounds=(a, b), bins=bins)
        qu = (q - a) / (b - a)
    else:
        x = unit * (inner[1] - inner[0]) + inner[0]
        q = quantize_log(x, bounds=inner, scale_slice=(a, b), bins=bins)
        qu = (q - inner[0]) / (inner[1] - inner[0])
    la, lb = math.log(a), math.log(b)
    orig = np.exp(la + unit * (lb - la))
    lev = a + (b - a) * np.arange(bins) / (bins - 1)
    ulev = (np.log(lev) - la) / (lb - la)
    err = np.abs(qu[:, None] - ulev[None, :])
    ctx.check((err.min(1) <= 1e-9).all(), "quantize-log-level", lambda: f"{a, b} {inner} {bins} {q}")
    pos = (orig - a) / (b - a) * bins
    firm = (np.abs(pos - np.rint(pos)) > 1e-6) | (unit == 0) | (unit == 1)
    want = np.clip(np.floor(pos), 0, bins - 1)
    want[unit == 1] = bins - 1
    want[unit == 0] = 0
    ctx.check((err.argmin(1)[firm] == want[firm]).all(), "quantize-log-contains", lambda: f"{a, b} {inner} {bins} {x} {q}")
    if inner is None:
        q2 = quantize_log(q, bounds=(a, b), bins=bins)
    else:
        q2 = quantize_log(q, bounds=inner, scale_slice=(a, b), bins=bins)
    ctx.check(np.allclose(q2, q, atol=1e-8), "quantize-log-idempotent", lambda: f"{a, b} {inner} {bins} {q} {q2}")
    ctx.state("quantize-log", a, b, bins, repr(inner))


def case_integer(ctx, rng):
    base = rng.choice([0, 1, -1, 7, -100, 1000])
    off = rng.choice([0.0, 1e-12, -1e-12, 0.5, 0.1, -0.25, 0.02])
    v = base + off
    want = None
    if off == 0 or abs(off) <= 1e-11:
        want = True
    elif abs(off) > 0.015 and abs(base) <= 1000:
        want = False
    arr = np.array([v, base, base + 0.5])
    got = is_close_to_integer(arr)
    ctx.check(bool(got[0]) == want and bool(got[1]) and not bool(got[2]), "integer", lambda: f"{v}: {got}")
    ctx.check(bool(is_close_to_integer(v)) == want and bool(is_close_to_integer_single(v)) == want, "integer", lambda: f"single {v}")
    tight = 0.001
    ctx.check(bool(is_close_to_integer_single(base + 0.0005, atol=tight, rtol=0)) and not bool(is_close_to_integer_single(base + 0.002, atol=tight, rtol=0)), "integer", "tolerance")
    ctx.check(bool(is_close_to_integer(np.array([base + 0.0005]), atol=tight, rtol=0)[0]) and not bool(is_close_to_integer(np.array([base + 0.002]), atol=tight, rtol=0)[0]), "integer", "tolerance")
    ctx.state("integer", v)


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [("ranges", case_ranges, 300, 8000), ("scaling", case_scaling, 200, 6000), ("quantize", case_quantize, 200, 6000), ("integer", case_integer, 40, 200)]
