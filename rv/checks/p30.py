"""P30: samples of a space follow the priors, restricted to the valid configurations."""
from __future__ import annotations

import math
from collections import Counter

import numpy as np
from ConfigSpace import Configuration

from rv.build import build, make_hp
from rv.dist import count_ok, weights
from rv.model import HP, Model, Undecided, index_in
from rv.mon import fingerprint
from rv.spec import describe, gen_spec

RULE = (
    "a state is a distinct (space, way of splitting the draws into calls) whose frequencies were compared with "
    "the declared joint distribution or with a reference sampler, for spaces with a condition, a clause or two hyperparameters"
)
NEEDS = [
    "draws", "verdict:frequency", "verdict:halves", "verdict:pairs", "verdict:never-valid", "verdict:two-sample", "verdict:two-sample-cdf", "way:one-call", "way:singles",
    "way:chunks", "space:condition", "space:clause", "space:weights", "space:rejects-many", "configurations",
]
ASSUMPTIONS = [
    "statistical bounds err less than once in 1e10 verdicts",
    "spaces whose forbidden clauses leave at least about 8 % of random assignments valid",
]


def probabilities(d):
    hp = HP(d)
    if hp.choices is not None:
        return list(zip(hp.choices, weights(d)))
    return [(v, 1 / hp.size) for v in range(hp.lo, hp.hi + 1)]


def exact(spec):
    """[(valid configuration, probability)] and the share of assignments that are valid."""
    m = Model(spec)
    pr = {d["name"]: probabilities(d) for d in spec["hps"]}
    out = []

    def rec(i, live, p):
        if len(out) > 3000:
            raise OverflowError
        if i == len(m.order):
            if p > 0 and not m.forbidden(live):
                out.append((dict(live), p))
            return
        n = m.order[i]
        if n in m.cond and not m.holds(m.cond[n], live):
            rec(i + 1, live, p)
            return
        for v, q in pr[n]:
            live[n] = v
            rec(i + 1, live, p * q)
            del live[n]

    rec(0, {}, 1.0)
    total = math.fsum(p for _, p in out)
    return m, [(c, p / total) for c, p in out], total


def draw(ctx, rng, cs, n):
    way = rng.choice(["one-call", "singles", "chunks", "chunks"])
    ctx.event("way:" + way)
    if way == "one-call":
        return way, cs.sample_configuration(n)
    out = []
    sizes = rng.choice([[2], [3], [5], [1, 2, 3, 7], [50], [1, 100]])
    while len(out) < n:
        if way == "singles":
            out.append(cs.sample_configuration())
        else:
            got = cs.sample_configuration(rng.choice(sizes))
            out += [got] if isinstance(got, Configuration) else got
    return way, out[:n]


def case_exact(ctx, rng, **kw):
    for _ in range(30):
        spec = gen_spec(rng, n=rng.choice([1, 2, 3, 3, 4, 5]), kinds=["cat", "cat", "ord", "uint", "uint", "const"], small=True, accept=0.08, **kw)
        if any(HP(d).size > 12 or d.get("log") for d in spec["hps"]):
            continue
        try:
            m, table, share = exact(spec)
        except OverflowError:
            continue
        if len(table) >= 2 and share > 0.08:
            break
    else:
        ctx.skip("no-small-space")
        return
    ctx.note(spec=spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    n = 2000 if len(table) < 40 else 6000
    way, cfgs = draw(ctx, rng, cs, n)
    ctx.event("draws", len(cfgs))
    if spec["conds"]:
        ctx.event("space:condition")
    if spec["forbs"]:
        ctx.event("space:clause")
    if share < 0.4:
        ctx.event("space:rejects-many")
    if any("weights" in d for d in spec["hps"]):
        ctx.event("space:weights")
    ids = {fingerprint(m, c): i for i, (c, _) in enumerate(table)}
    seq = []
    for c in cfgs:
        k = ids.get(fingerprint(m, dict(c)))
        if k is None:
            ctx.check(False, "never-valid", lambda: f"{dict(c)} was drawn")
            return
        seq.append(k)
    ctx.check(True, "never-valid")
    ctx.event("configurations", len(set(seq)))
    probs = [p for _, p in table]

    def compare(part, kind):
        cnt, tot = Counter(part), len(part)
        for i, p in enumerate(probs):
            ctx.check(count_ok(cnt[i], tot, p), kind, lambda: f"{way}: {table[i][0]}: {cnt[i]} of {tot}, expected {tot * p:.1f}")

    compare(seq, "frequency")
    compare(seq[: n // 2], "halves")
    compare(seq[n // 2 :], "halves")
    compare(seq[::2], "halves")
    # each value of each hyperparameter, which needs fewer draws to be precise
    for nm in m.hps:
        cnt = Counter(repr(table[i][0].get(nm)) for i in seq)
        want = Counter()
        for c, p in table:
            want[repr(c.get(nm))] += p
        for v, p in want.items():
            ctx.check(count_ok(cnt[v], n, min(p, 1.0)), "frequency", lambda: f"{way}: {nm} = {v}: {cnt[v]} of {n}, expected {n * p:.1f}")
    # one draw says nothing about the next one
    for lag in (1, rng.choice([2, 3, 10])):
        cnt = Counter()
        pairs = 0
        for a in range(0, n - 2 * lag, 2 * lag):
            for b in range(lag):
                cnt[seq[a + b], seq[a + b + lag]] += 1
                pairs += 1
        if len(table) <= 40:
            for i, p in enumerate(probs):
                for j, q in enumerate(probs):
                    ctx.check(count_ok(cnt[i, j], pairs, p * q), "pairs", lambda: f"{way}: {table[i][0]} then {table[j][0]}: {cnt[i, j]} of {pairs}, expected {pairs * p * q:.1f}")
        else:
            same = sum(c for (i, j), c in cnt.items() if i == j)
            ctx.check(count_ok(same, pairs, math.fsum(p * p for p in probs)), "pairs", lambda: f"{way}: {same} repetitions of {pairs}")
    if len(spec["hps"]) > 1 or spec["forbs"]:
        ctx.state(repr(spec), way)
    ctx.sample({"space": describe(spec), "way": way, "valid": len(table), "share": round(share, 3), "draws": n})


def case_conditional(ctx, rng):
    case_exact(ctx, rng, p_cond=0.9)


def case_forbidden(ctx, rng):
    case_exact(ctx, rng, n_forb=rng.choice([2, 4, 6]))


def reference(rng, spec, n):
    """Draw from each prior separately, decide activity and clauses by the model, reject."""
    m = Model(spec)
    rs = np.random.RandomState(rng.randrange(2**31))
    hps = {d["name"]: make_hp(d) for d in spec["hps"]}
    out, tries = [], 0
    while len(out) < n:
        cols = {nm: hp.sample_value(2 * n, seed=rs) for nm, hp in hps.items()}
        for i in range(2 * n):
            tries += 1
            v = {}
            try:
                for nm in m.order:
                    if nm not in m.cond or m.holds(m.cond[nm], v):
                        x = cols[nm][i]
                        v[nm] = x.item() if hasattr(x, "item") else x
                if not m.forbidden(v):
                    out.append(v)
            except Undecided:
                continue
        if tries > 60 * n:
            return None
    return out[:n]


def case_general(ctx, rng):
    """Any kinds of hyperparameters, against a reference sampler."""
    spec = gen_spec(rng, n=rng.choice([2, 3, 4, 6, 8]), accept=0.2, p_cond=rng.choice([0.3, 0.7, 0.9]), n_forb=rng.choice([0, 1, 3]))
    if any(f[0] == "REQ" for f in spec["forbs"]):
        ctx.skip("equality")
        return
    ctx.note(spec=spec)
    m = Model(spec)
    n = 3000
    ref = reference(rng, spec, n)
    if ref is None:
        ctx.skip("few-valid")
        return
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    way, cfgs = draw(ctx, rng, cs, n)
    ctx.event("draws", len(cfgs))
    got = [dict(c) for c in cfgs]
    bound = lambda x, y: abs(x - y) <= 7 * math.sqrt(x + y) + 14  # noqa: E731

    def tally(key, kind="two-sample"):
        a, b = Counter(map(key, got)), Counter(map(key, ref))
        for k in {**a, **b}:
            ctx.check(bound(a[k], b[k]), kind, lambda: f"{way}: {k}: {a[k]} of {n}, {b[k]} expected from the reference")

    def coarse(nm, v):
        hp = m.hps[nm]
        if nm not in v:
            return None
        if hp.choices is not None:
            return index_in(v[nm], hp.choices)
        x = (v[nm] - hp.lo) / (hp.hi - hp.lo) if hp.hi > hp.lo else 0
        return min(3, int(4 * x))

    tally(lambda v: tuple(sorted(v)))
    for nm in m.hps:
        tally(lambda v: (nm, coarse(nm, v)))
        hp = m.hps[nm]
        if hp.choices is None:
            a = np.sort([float(v[nm]) for v in got if nm in v])
            b = np.sort([float(v[nm]) for v in ref if nm in v])
            if len(a) > 100 and len(b) > 100:
                g = np.concatenate([a, b])
                dist = np.abs(np.searchsorted(a, g, side="right") / len(a) - np.searchsorted(b, g, side="right") / len(b)).max()
                eps = math.sqrt(math.log(4e12) / 2) * (1 / math.sqrt(len(a)) + 1 / math.sqrt(len(b)))
                ctx.check(dist <= eps, "two-sample-cdf", lambda: f"{way}: {nm}: distance {dist:.3f} > {eps:.3f}")
    names = list(m.hps)
    for _ in range(min(8, len(names) * (len(names) - 1) // 2)):
        p, q = rng.sample(names, 2)
        tally(lambda v: (p, coarse(p, v), q, coarse(q, v)))
    ctx.state(repr(spec), way, "general")


CASES = [("exact", case_exact, 12, 300), ("conditional", case_conditional, 12, 300), ("forbidden", case_forbidden, 14, 300), ("general", case_general, 10, 250)]
