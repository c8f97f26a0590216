"""P10: neighbors of a value are legal, distinct and different."""
from __future__ import annotations

import math

import numpy as np

from rv.build import make_hp
from rv.dist import dkw
from rv.hpgen import some_values, wide_hp
from rv.model import HP, index_in
from rv.spec import gen_choices, gen_hp

RULE = "a state is a distinct (definition of a hyperparameter, value, number of neighbors asked for, spread) whose neighbors were judged"
NEEDS = [
    "verdict:legal", "verdict:distinct", "verdict:different", "verdict:number", "verdict:spread", "verdict:reported-number", "asked:some", "asked:all", "asked:more", "near",
    "hp:ufloat:log", "hp:uint:log", "hp:nfloat", "hp:nint", "hp:bfloat:log", "hp:bint", "hp:cat", "hp:ord", "hp:const", "long",
]
ASSUMPTIONS = ["a spread of zero is not claimed for floats"]


def available(ref, v):
    """Number of neighbors a value has."""
    if ref.k == "const":
        return 0
    if ref.k == "cat":
        return len(ref.choices) - 1
    if ref.k == "ord":
        i = index_in(v, ref.choices)
        return (i > 0) + (i < len(ref.choices) - 1)
    if ref.is_int:
        return ref.hi - ref.lo
    return math.inf


def judge(ctx, ref, hp, v, n, std, seed, how):
    rs = np.random.RandomState(seed)
    if how == "values":
        out = list(hp.neighbors_values(v, n, std=std, seed=rs))
    else:
        xs = hp.neighbors_vectorized(hp.to_vector(v), n, std=std, seed=rs)
        ctx.check(bool(np.all(hp.legal_vector(np.asarray(xs, dtype=float)))) if len(xs) else True, "legal", lambda: f"vectors {xs}")
        x0 = float(hp.to_vector(v))
        ctx.check(not any(float(x) == x0 for x in xs), "different", lambda: f"vector {x0} among {xs}")
        out = list(hp.to_value(np.asarray(xs, dtype=float))) if len(xs) else []
    av = available(ref, v)
    text = lambda: f"neighbors of {v!r}, n={n}, std={std}: {out[:30]}"  # noqa: E731
    ctx.check(len(out) == min(n, av), "number", lambda: f"{len(out)} instead of {min(n, av)}: " + text())
    if ref.choices is not None:
        idx = [index_in(o, ref.choices) for o in out]
        i = index_in(v, ref.choices)
        ctx.check(-1 not in idx, "legal", text)
        ctx.check(len(set(idx)) == len(idx), "distinct", text)
        ctx.check(i not in idx, "different", text)
        if ref.k == "ord":
            ctx.check(all(abs(j - i) == 1 for j in idx), "adjacent", text)
        return out
    a = np.array(out, dtype=float)
    ctx.check(bool(((a >= ref.lo) & (a <= ref.hi)).all()), "legal", text)
    if ref.is_int:
        ctx.check(bool((a == np.rint(a)).all()), "legal", text)
        ctx.check(len(np.unique(a)) == len(a), "distinct", text)
        ctx.check(not (a == v).any(), "different", text)
    elif ref.hi - ref.lo > 1e-2 and (std is None or std > 1e-3):
        ctx.check(len(np.unique(a)) == len(a), "distinct", text)
        ctx.check(not (a == v).any(), "different", text)
    return out


def case_hp(ctx, rng, d=None):
    d = d or wide_hp(rng) if d or rng.random() < 0.4 else gen_hp(rng, "h", small=rng.random() < 0.5)
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    ctx.event("hp:" + d["k"] + (":log" if d.get("log") else ""))
    key = repr(sorted((k, repr(v)) for k, v in d.items()))
    vals = some_values(rng, d, 8)
    if len(vals) > 10:
        vals = [vals[0], vals[-1], *rng.sample(vals, 8)]
    for v in vals:
        av = available(ref, v)
        got = hp.get_num_neighbors(v)
        ctx.check(got == av, "reported-number", lambda: f"{v!r}: {got} instead of {av}")
        ns = {1, 2, 3, 4, rng.choice([5, 8, 20])}
        if av < 3000:
            ns |= {max(1, av), max(1, av - 1), av + 1, av + 10, max(1, av // 2)}
        for n in sorted(ns):
            std = rng.choice([None, None, 0.05, 0.2, 0.5, 1.0, 0.01])
            how = rng.choice(["values", "vector"])
            ctx.event("asked:" + ("some" if n < av else "all" if n == av else "more"))
            judge(ctx, ref, hp, v, n, std, rng.randrange(2**31), how)
            ctx.state(key, repr(v), n, std, how)
    ctx.sample({"hp": key})


def case_long(ctx, rng):
    """Hundreds of choices."""
    ctx.event("long")
    seq = gen_choices(rng, rng.choice([255, 256, 257, 258, 300, 500]), ["int", "str"])
    case_hp(ctx, rng, {"k": "cat", "name": "h", "choices": seq} if rng.random() < 0.3 else {"k": "ord", "name": "h", "seq": seq})


def case_cover(ctx, rng):
    """Every other value of a small hyperparameter turns up as a neighbor."""
    d = gen_hp(rng, "h", kinds=["cat", "ord", "uint", "nint", "bint"], small=True)
    ref = HP(d)
    if ref.size > 8 or ref.size < 2:
        ctx.skip("size")
        return
    ctx.note(hp=d)
    hp = make_hp(d)
    v = rng.choice(ref.all_values())
    rs = np.random.RandomState(rng.randrange(2**31))
    seen = []
    for _ in range(400):
        for o in hp.neighbors_values(v, 1, std=1.0, seed=rs):
            if index_in(o, seen) < 0:
                seen.append(o)
    want = [o for o in ref.all_values() if index_in(o, [v]) < 0]
    if ref.k == "ord":
        i = index_in(v, ref.choices)
        want = [o for j, o in enumerate(ref.choices) if abs(i - j) == 1]
    ctx.check(all(index_in(o, seen) >= 0 for o in want) and all(index_in(o, want) >= 0 for o in seen), "covers", lambda: f"{v!r}: seen {seen}, expected {want}")


def case_near(ctx, rng):
    """A nearly whole entry has the neighbors of the choice it stands for."""
    d = wide_hp(rng, kinds=["cat", "ord"])
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    for i in rng.sample(range(len(ref.choices)), min(6, len(ref.choices))):
        for e in (1e-14, 5e-14, -1e-14, 4e-6, -4e-6):
            x = i + e
            if x < 0 or not hp.legal_vector(x):
                continue
            ctx.event("near")
            n = rng.choice([1, 2, 100])
            out = [float(o) for o in hp.neighbors_vectorized(x, n, seed=np.random.RandomState(rng.randrange(2**31)))]
            want = [j for j in range(len(ref.choices)) if j != i and (ref.k == "cat" or abs(i - j) == 1)]
            ok = len(out) == min(n, len(want)) == len(set(out)) and all(o in want for o in out)
            ctx.check(ok, "near", lambda: f"{x!r}, n={n}: {out}, expected among {want}")
            ctx.state(ref.k, len(ref.choices), i, e)


def case_spread(ctx, rng):
    """Float neighbors of an inner value follow a normal around it."""
    from scipy import stats

    d = gen_hp(rng, "h", kinds=["ufloat", "nfloat", "bfloat"])
    ref = HP(d)
    if ref.hi - ref.lo < 0.01 or (ref.log and ref.hi / ref.lo < 1.4):
        ctx.skip("narrow")
        return
    ctx.note(hp=d)
    hp = make_hp(d)
    ctx.event("hp:" + d["k"] + (":log" if d.get("log") else ""))
    x0, std = rng.uniform(0.4, 0.6), rng.choice([0.02, 0.05, 0.1, 0.2, None])
    n = 4000
    xs = np.sort(np.asarray(hp.neighbors_vectorized(x0, n, std=std, seed=np.random.RandomState(rng.randrange(2**31))), dtype=float))
    s = 0.2 if std is None else std
    f = stats.truncnorm(-x0 / s, (1 - x0) / s, loc=x0, scale=s).cdf(xs)
    dist = max((np.arange(1, n + 1) / n - f).max(), (f - np.arange(n) / n).max())
    ctx.check(dist <= dkw(n), "spread", lambda: f"around {x0}, std {std}: distance {dist:.3f} > {dkw(n):.3f}")
    ctx.state(repr(d), "spread", std)


def case_int_spread(ctx, rng):
    """Integer neighbors of an inner value lie around it."""
    lo = rng.choice([0, 1, -500])
    d = {"k": rng.choice(["uint", "nint", "bint"]), "name": "h", "lo": lo, "hi": lo + 100000, "mu": lo + 5, "sigma": 1e5, "alpha": 2, "beta": 3}
    ctx.note(hp=d)
    hp = make_hp(d)
    v = lo + rng.randrange(40000, 60000)
    std = rng.choice([0.01, 0.03, 0.1])
    out = np.array(hp.neighbors_values(v, 300, std=std, seed=np.random.RandomState(rng.randrange(2**31))), dtype=float)
    z = np.sort((out - v) / (std * 100000))
    # the distinct ones are returned sorted and cut off, so only scale and range are judged
    ctx.check(abs(z).max() < 7, "spread", lambda: f"{v}, std {std}: {out.min()}..{out.max()}")
    ctx.check(abs(z).max() > 0.5, "spread", lambda: f"{v}, std {std}: {out.min()}..{out.max()}")
    ctx.check(len(np.unique(out)) == 300 and v not in out, "distinct", lambda: f"{v}: {out}")
    rs = np.random.RandomState(rng.randrange(2**31))
    few = [np.array(hp.neighbors_values(v, 4, std=std, seed=rs), dtype=float) for _ in range(100)]
    share = np.mean([(f > v).mean() for f in few])
    lowest = share < 0.3 and all((np.diff(f) > 0).all() for f in few)
    ctx.check(0.3 <= share <= 0.7, "both-sides", lambda: f"{v}, std {std}: {share} of the neighbors are larger", mech="integer-neighbors-lowest" if lowest else None)
    ctx.state(repr(d), v, std)


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("hp", case_hp, 100, 4000),
    ("near", case_near, 15, 300),
    ("long", case_long, 4, 60),
    ("cover", case_cover, 15, 300),
    ("spread", case_spread, 20, 500),
    ("int-spread", case_int_spread, 10, 200),
]
