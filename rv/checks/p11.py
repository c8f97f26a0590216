"""P11: the one-exchange neighbourhood holds valid one-change neighbors."""
from __future__ import annotations

from collections import defaultdict

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.util import get_one_exchange_neighbourhood

from rv.build import build
from rv.model import Model, Undecided, index_in, same
from rv.mon import cfg_state, check_config, fingerprint, real_defaults, value_equal, values_equal
from rv.spec import describe, gen_spec, hard, large, random_values

RULE = (
    "a state is a distinct (space, start configuration, changed hyperparameter, new discrete "
    "values) among the yielded neighbors that were judged"
)
NEEDS = [
    "verdict:neighbor-valid", "verdict:one-change", "verdict:complete", "verdict:start-untouched", "verdict:number",
    "verdict:exact-number", "switched-on", "switched-off", "left-out:forbidden", "start:default", "start:sampled", "start:values",
]
ASSUMPTIONS = ["float comparisons closer than 1e-9 are left undecided"]


def start_of(ctx, rng, cs, spec, model):
    r = rng.random()
    if r < 0.25:
        ctx.event("start:default")
        return cs.get_default_configuration()
    if r < 0.6:
        ctx.event("start:sampled")
        return cs.sample_configuration()
    defs = {d["name"]: d for d in spec["hps"]}
    for _ in range(30):
        v = random_values(rng, model, defs)
        if model.valid(v):
            ctx.event("start:values")
            return Configuration(cs, values=v)
    ctx.event("start:sampled")
    return cs.sample_configuration()


def alternatives(model, start, name):
    """Other values a discrete hyperparameter can be changed to in one step."""
    hp = model.hps[name]
    if hp.k == "cat":
        return [c for c in hp.choices if not same(c, start[name])]
    i = index_in(start[name], hp.choices)
    return [c for j, c in enumerate(hp.choices) if abs(i - j) == 1]


def judge(ctx, rng, spec, model, cs, cfg):
    start = dict(cfg)
    dflt = real_defaults(cs)
    n = rng.choice([1, 2, 3, 4, 4, 7])
    std = rng.choice([0.2, 0.2, 0.05, 0.5, 1.0])
    seed = rng.randrange(2**31)
    before = cfg_state(cfg)
    ctx.note(start=start, n=n, std=std, seed=seed)
    gen = get_one_exchange_neighbourhood(
        cfg, seed if rng.random() < 0.5 else np.random.RandomState(seed), num_neighbors=n, stdev=std
    )
    cap = sum(len(alternatives(model, start, x)) if model.hps[x].k in ("cat", "ord") else n for x in start)
    by = defaultdict(list)
    count, close = 0, False
    for c in gen:
        count += 1
        if not ctx.check(count <= cap, "ends", lambda: f"more than {cap} neighbors"):
            return
        check_config(ctx, model, cs, c, "neighbor")
        new = dict(c)
        changed = [x for x in start if x in new and not value_equal(start[x], new[x], 1e-12)]
        if not changed and any(model.hps[x].is_float and start[x] != new.get(x) for x in start):
            ctx.skip("rounding")  # too close to tell from the way to compute it
            close = True
            continue
        if not ctx.check(len(changed) == 1, "one-change", lambda: f"{changed} changed: {start} -> {new}"):
            continue
        x = changed[0]
        by[x].append(new[x])
        try:
            want = model.assign(start, x, new[x], dflt)
        except Undecided:
            ctx.skip("rounding")
            continue
        ctx.check(values_equal(new, want), "one-change", lambda: f"{x}: {start} -> {new} instead of {want}")
        if set(new) - set(start):
            ctx.event("switched-on")
        if set(start) - set(new):
            ctx.event("switched-off")
        ctx.state(repr(describe(spec)), fingerprint(model, start), x, fingerprint(model, new))
    ctx.check(cfg_state(cfg) == before, "start-untouched", lambda: f"{start} -> {dict(cfg)}")
    for x in start:
        hp = model.hps[x]
        got = by.get(x, [])
        if hp.k in ("cat", "ord"):
            bad = []
            try:
                for a in alternatives(model, start, x):
                    ok = not model.forbidden(model.assign(start, x, a, dflt))
                    k = sum(same(a, g) for g in got)
                    if not ok:
                        ctx.event("left-out:forbidden")
                    if k != ok:
                        bad.append((a, "expected" if ok else "unexpected", k))
                if hp.k == "ord":
                    bad += [(g, "not adjacent") for g in got if index_in(g, alternatives(model, start, x)) < 0]
            except Undecided:
                ctx.skip("rounding")
                continue
            ctx.check(not bad, "complete", lambda: f"{x}: {bad} around {start}")
        elif hp.k == "const":
            ctx.check(not got, "number", lambda: f"{x} changed: {got}")
        else:
            ctx.check(len(got) <= n, "number", lambda: f"{x}: {got}, asked for {n}")
            if not spec["forbs"] and not close:
                want = n if hp.is_float else min(n, hp.size - 1)
                ctx.check(len(got) == want, "exact-number", lambda: f"{x}: {got}, expected {want}")
                if hp.is_int:
                    ctx.check(len(set(got)) == len(got), "distinct", lambda: f"{x}: {got}")
                # parameters without a spread of their own use the given one
                if hp.k == "ufloat" and not hp.log and got:
                    far = max(abs(g - start[x]) for g in got) / (hp.hi - hp.lo)
                    ctx.check(far <= 8 * std, "spread", lambda: f"{x}: {start[x]} -> {got}, std {std}")


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **kw)
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    for _ in range(3):
        judge(ctx, rng, spec, model, cs, start_of(ctx, rng, cs, spec, model))
    ctx.sample(describe(spec))


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([4, 6, 8]), p_cond=0.9, small=True, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


def case_forbidden(ctx, rng):
    case_random(ctx, rng, n=rng.choice([2, 3, 5]), p_cond=rng.choice([0, 0.5]), n_forb=rng.choice([3, 6, 10]), small=True,
                accept=0.05, kinds=["cat", "cat", "ord", "uint", "const", "ufloat"])


def case_walk(ctx, rng):
    """A local search: go on from a neighbor, with several searches interleaved."""
    spec = gen_spec(rng, n=rng.choice([3, 5, 7]), p_cond=rng.choice([0.3, 0.8]), small=True)
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    cfg = cs.get_default_configuration()
    other = get_one_exchange_neighbourhood(cs.sample_configuration(), rng.randrange(2**31))
    for _ in range(6):
        ctx.event("walk-step")
        judge(ctx, rng, spec, model, cs, cfg)
        for c in [next(other, None)]:
            if c is not None:
                check_config(ctx, model, cs, c, "neighbor")
        nb = list(get_one_exchange_neighbourhood(cfg, rng.randrange(2**31)))
        if not nb:
            break
        cfg = rng.choice(nb)


def case_few(ctx, rng):
    """Spaces in which little or nothing can be changed."""
    kinds = rng.choice([["const"], ["const", "cat", "ord"]])
    hps = []
    for i in range(rng.choice([1, 2, 3])):
        k = rng.choice(kinds)
        d = {"k": k, "name": f"h{i}"}
        if k == "const":
            d["value"] = i
        else:
            d["choices" if k == "cat" else "seq"] = [f"v{j}" for j in range(rng.choice([1, 1, 2]))]
        hps.append(d)
    spec = {"hps": hps, "conds": [], "forbs": []}
    ctx.note(spec=spec)
    ctx.event("few")
    cs = build(spec, seed=1)
    judge(ctx, rng, spec, Model(spec), cs, cs.get_default_configuration())


def case_wide(ctx, rng):
    """Hyperparameters of very many choices."""
    n = rng.choice([300, 1001, 1500])
    d = {"k": rng.choice(["cat", "cat", "ord"]), "name": "w"}
    d["choices" if d["k"] == "cat" else "seq"] = list(range(n))
    e = {"k": "cat", "name": "e", "choices": ["x", "y"]}
    spec = {"hps": [d, e], "conds": rng.choice([[], [("EQ", "e", "w", 0)]]), "forbs": rng.choice([[], [("IN", "w", list(range(5, n // 2)))]])}
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31))
    start = cs.sample_configuration()
    got = [dict(c) for c in get_one_exchange_neighbourhood(start, seed=rng.randrange(2**31))]
    now = dict(start)
    w = sorted(int(g["w"]) for g in got if int(g["w"]) != int(now["w"]))
    allowed = [i for i in range(n) if i != int(now["w"]) and not (spec["forbs"] and 5 <= i < n // 2)]
    if d["k"] == "cat":
        ctx.check(w == allowed, "wide-complete", lambda: f"{len(w)} instead of {len(allowed)} neighbors from {now}")
    else:
        ctx.check(w == [i for i in (int(now["w"]) - 1, int(now["w"]) + 1) if i in allowed], "wide-complete", lambda: f"{w} from {now}")
    for g in got:
        ctx.check(not model.defects(g), "wide-valid", lambda: f"{g}")
    ctx.state("wide", n, repr(now))
    ctx.event("wide")


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("random", case_random, 150, 2500),
    ("nested", case_nested, 100, 1500),
    ("forbidden", case_forbidden, 150, 1500),
    ("walk", case_walk, 25, 250),
    ("few", case_few, 6, 50),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 100),
    ("wide", case_wide, 1, 25),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
