"""P12: a random neighbor is valid and differs in one value."""
from __future__ import annotations

from ConfigSpace import Configuration
from ConfigSpace.util import get_random_neighbor

from rv.build import build
from rv.checks.p11 import alternatives, start_of
from rv.model import Model, Undecided, index_in, same
from rv.mon import cfg_state, check_config, fingerprint, real_defaults
from rv.spec import describe, gen_spec, hard, large, legal_value

RULE = "a state is a distinct (space, start configuration, changed hyperparameter, its new discrete value) that was returned and judged"
NEEDS = ["verdict:neighbor-valid", "verdict:one-change", "verdict:same-active", "verdict:refused", "verdict:start-untouched", "verdict:covers", "changed:cat", "changed:ord", "changed:uint", "changed:ufloat", "changed:nfloat"]
ASSUMPTIONS = ["float comparisons closer than 1e-9 are left undecided"]


def discrete_neighbors(model, start, dflt):
    """All discrete neighbors with the same active set; None if a numeric one could vary."""
    out = []
    for x in start:
        hp = model.hps[x]
        if hp.k == "const":
            continue
        alts = alternatives(model, start, x) if hp.choices is not None else hp.all_values(30)
        if alts is None:
            return None
        for a in alts:
            if same(a, start[x]):
                continue
            new = dict(start)
            new[x] = a
            if model.valid(new):
                out.append((x, a))
    return out


def numeric_neighbors(rng, spec, model, start):
    """Some neighbors if a fair share of all single changes are, else none."""
    defs = {d["name"]: d for d in spec["hps"]}
    out, n = [], 100
    for _ in range(n):
        x = rng.choice(list(start))
        new = dict(start)
        new[x] = legal_value(rng, defs[x])
        try:
            if not same(new[x], start[x]) and model.valid(new) and (defs[x]["k"] != "ord" or any(same(new[x], a) for a in alternatives(model, start, x))):
                out.append((x, new[x]))
        except Undecided:
            continue
    return out if len(out) > n // 10 else []


def judge(ctx, rng, spec, model, cs, cfg, seed=None):
    start, before = dict(cfg), cfg_state(cfg)
    seed = rng.randrange(2**31) if seed is None else seed
    ctx.note(start=start, seed=seed)
    try:
        new = get_random_neighbor(cfg, seed)
    except ValueError as e:
        ctx.check(cfg_state(cfg) == before, "start-untouched", lambda: f"{start} -> {dict(cfg)}")
        nb = discrete_neighbors(model, start, real_defaults(cs))
        if nb is None:
            nb = numeric_neighbors(rng, spec, model, start)
        # it is only refused if there is none
        ctx.check(not nb, "refused", lambda: f"{e!r} although {nb} are neighbors of {start}")
        return None
    ctx.check(isinstance(new, Configuration), "returned", lambda: type(new))
    ctx.check(cfg_state(cfg) == before and new is not cfg, "start-untouched", lambda: f"{start} -> {dict(cfg)}")
    check_config(ctx, model, cs, new, "neighbor")
    vals = dict(new)
    ctx.check(set(vals) == set(start), "same-active", lambda: f"{start} -> {vals}")
    changed = [x for x in start if x in vals and not same(start[x], vals[x])]
    if not ctx.check(len(changed) == 1, "one-change", lambda: f"{changed}: {start} -> {vals}"):
        return None
    x = changed[0]
    hp = model.hps[x]
    ctx.event("changed:" + hp.k)
    if hp.k == "ord":
        ctx.check(abs(index_in(vals[x], hp.choices) - index_in(start[x], hp.choices)) == 1, "adjacent", lambda: f"{x}: {start[x]} -> {vals[x]}")
    ctx.state(repr(describe(spec)), fingerprint(model, start), x, fingerprint(model, vals))
    return x, vals[x]


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **kw)
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    try:
        for _ in range(3):
            cfg = start_of(ctx, rng, cs, spec, model)
            for _ in range(4):
                if judge(ctx, rng, spec, model, cs, cfg) is None:
                    break
    except Undecided:
        ctx.skip("rounding")
    ctx.sample(describe(spec))


def case_forbidden(ctx, rng):
    case_random(ctx, rng, n=rng.choice([2, 3, 5]), p_cond=rng.choice([0, 0.5]), n_forb=rng.choice([2, 4, 6]), small=True,
                kinds=["cat", "cat", "ord", "uint", "const", "ufloat"])


def case_cover(ctx, rng):
    """Each neighbor of a small discrete space turns up, and none other."""
    spec = gen_spec(rng, n=rng.choice([1, 2, 3]), p_cond=rng.choice([0, 0.5]), n_forb=rng.choice([0, 2]), small=True, kinds=["cat", "ord", "const"])
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    cfg = start_of(ctx, rng, cs, spec, model)
    start = dict(cfg)
    want = discrete_neighbors(model, start, real_defaults(cs))
    seen = []
    s0 = rng.randrange(2**31)
    for i in range(150):
        r = judge(ctx, rng, spec, model, cs, cfg, s0 + i)
        if r is None:
            break
        if not any(r[0] == y and same(r[1], b) for y, b in seen):
            seen.append(r)
    bad = [r for r in seen if not any(r[0] == y and same(r[1], b) for y, b in want)]
    # each has a probability of at least about 1/16 per call
    miss = [r for r in want if not any(r[0] == y and same(r[1], b) for y, b in seen)] if len(want) <= 6 else []
    ctx.check(not bad and not miss, "covers", lambda: f"{start}: wrong {bad}, never seen {miss}")


def case_none(ctx, rng):
    """Configurations without any neighbor."""
    k = rng.randrange(4)
    if k == 0:
        hps = [{"k": "const", "name": "a", "value": 1}, {"k": "cat", "name": "b", "choices": ["x"]}]
        spec = {"hps": hps, "conds": [], "forbs": []}
    elif k == 1:  # every change switches another one on or off
        hps = [{"k": "cat", "name": "a", "choices": ["x", "y"], "def": "x"}, {"k": "const", "name": "b", "value": 1}]
        spec = {"hps": hps, "conds": [("EQ", "b", "a", rng.choice(["x", "y"]))], "forbs": []}
    elif k == 2:  # every change is forbidden
        hps = [{"k": "cat", "name": "a", "choices": ["x", "y", "z"], "def": "x"}, {"k": "cat", "name": "b", "choices": [1, 2], "def": 1}]
        spec = {"hps": hps, "conds": [], "forbs": [("AND", [("EQ", "a", "x"), ("EQ", "b", 2)]), ("AND", [("EQ", "b", 1), ("IN", "a", ["y", "z"])])]}
    else:  # those that could vary are inactive
        hps = [{"k": "ord", "name": "a", "seq": ["x"]}, {"k": "uint", "name": "b", "lo": 0, "hi": 5}]
        spec = {"hps": hps, "conds": [("NE", "b", "a", "x")], "forbs": []}
    ctx.note(spec=spec)
    cs = build(spec, seed=1)
    cfg = cs.get_default_configuration()
    before = cfg_state(cfg)
    try:
        new = get_random_neighbor(cfg, rng.randrange(2**31))
    except ValueError:
        ctx.check(True, "refused")
    else:
        ctx.check(False, "refused", lambda: f"{dict(cfg)} -> {dict(new)}")
    ctx.check(cfg_state(cfg) == before, "start-untouched")


CASES = [
    ("random", case_random, 80, 3000),
    ("forbidden", case_forbidden, 50, 1500),
    ("cover", case_cover, 8, 200),
    ("none", case_none, 3, 20),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 100),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
