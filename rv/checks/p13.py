"""P13: assigning a value keeps a configuration valid or changes nothing."""
from __future__ import annotations

import numpy as np
from ConfigSpace import Configuration

from rv.build import build
from rv.checks.p02 import illegal_value
from rv.model import Model, Undecided, dlcs
from rv.mon import cfg_state, check_config, fingerprint, real_defaults, values_equal
from rv.spec import describe, gen_spec, hard, large, legal_value, random_values

RULE = (
    "a state is a distinct (space, configuration before, assigned name, discrete values after or refusal) "
    "along an assignment history, judged against the shadow state"
)
NEEDS = [
    "verdict:assign-accepted", "verdict:assign-refused", "refused:illegal", "refused:inactive", "refused:forbidden",
    "refused:unknown", "switched-on", "switched-off",
]


def step(ctx, rng, model, cs, cfg, shadow, dflt, defs, key):
    """One assignment; returns the new shadow state."""
    r = rng.random()
    names = list(defs)
    act = [n for n in names if n in shadow]
    if r < 0.6 or not model.cond:
        name = rng.choice(act)
        value = legal_value(rng, defs[name])
    elif r < 0.75:
        # aim at the value some condition compares with
        c = rng.choice(list(dlcs(rng.choice(list(model.cond.values())))))
        name = c[2]
        value = rng.choice(c[3]) if c[0] == "IN" else c[3]
    elif r < 0.85:
        name = rng.choice(names)
        value = legal_value(rng, defs[name])
    elif r < 0.97:
        name = rng.choice(names)
        value = illegal_value(rng, defs[name])
    else:
        name, value = rng.choice([("nope", 1), ("", 0), (names[0] + "_", 1)])

    why, want = None, None
    if name not in defs:
        why = "unknown"
    elif not model.hps[name].legal(value):
        why = "illegal"
    else:
        want = model.assign(shadow, name, value, dflt)
        if name not in want:
            why = "inactive"
        elif model.forbidden(want):
            why = "forbidden"
    before = cfg_state(cfg)
    err = None
    try:
        cfg[name] = value
    except Exception as e:  # noqa: BLE001
        err = e
    if why:
        ctx.event("refused:" + why)
        ctx.check(err is not None, "assign-refused", lambda: f"{name}={value!r} ({why}) accepted in {shadow}: {dict(cfg)}")
        if err is not None:
            ctx.check(isinstance(err, (ValueError, KeyError)), "assign-error-type", lambda: f"{err!r} for {name}={value!r} ({why})")
        ctx.check(cfg_state(cfg) == before, "assign-refused-unchanged", lambda: f"{name}={value!r} ({why}) changed {before} to {cfg_state(cfg)}")
        ctx.state(key, fingerprint(model, shadow), name, why)
        return shadow
    if not ctx.check(err is None, "assign-accepted", lambda: f"{name}={value!r} on {shadow} refused: {err!r}"):
        return shadow
    got = dict(cfg)
    ctx.check(values_equal(got, want), "assign-result", lambda: f"{name}={value!r} on {shadow}: {got} instead of {want}")
    on, off = set(want) - set(shadow), set(shadow) - set(want)
    ctx.event("switched-on", len(on))
    ctx.event("switched-off", len(off))
    check_config(ctx, model, cs, cfg, "assigned")
    ctx.state(key, fingerprint(model, shadow), name, fingerprint(model, want))
    return want


def start(ctx, rng, model, cs, defs, dflt):
    r = rng.random()
    if r < 0.3:
        cfg = cs.get_default_configuration()
    elif r < 0.6:
        cfg = cs.sample_configuration()
    else:
        for _ in range(30):
            v = random_values(rng, model, defs)
            if not model.forbidden(v):
                break
        else:
            return None, None
        cfg = Configuration(cs, values=v)
        if r < 0.8:
            cfg = Configuration(cs, vector=np.array(cfg.get_array()))
    return cfg, dict(cfg)


def case_random(ctx, rng, steps=25, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 4, 6, 8]), "p_cond": rng.choice([0.3, 0.8])} | kw))
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    dflt = real_defaults(cs)
    key = repr(describe(spec)) + repr(sorted(defs))
    cfg, shadow = start(ctx, rng, model, cs, defs, dflt)
    if cfg is None:
        return
    other = Configuration(cs, values=dict(cfg))
    other_state = cfg_state(other)
    hist = []
    for _ in range(steps):
        try:
            shadow = step(ctx, rng, model, cs, cfg, shadow, dflt, defs, key)
        except Undecided:
            ctx.skip("rounding")
            break
        hist.append(len(shadow))
    ctx.check(cfg_state(other) == other_state, "other-configuration-unchanged")
    ctx.sample({"space": describe(spec), "active counts along the history": hist})


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([5, 7, 9]), p_cond=0.95, small=True, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


def case_forbidden(ctx, rng):
    case_random(ctx, rng, n=rng.choice([3, 4, 5]), p_cond=rng.choice([0.2, 0.7]), small=True, n_forb=rng.choice([4, 8]), accept=0.05)


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("nested", case_nested, 60, 2500),
    ("random", case_random, 50, 2000),
    ("forbidden", case_forbidden, 50, 2000),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 120),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
