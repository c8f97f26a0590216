"""P23: imputing and deactivating are exact inverses."""
from __future__ import annotations

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.exceptions import ForbiddenValueError
from ConfigSpace.util import deactivate_inactive_hyperparameters, impute_inactive_values

from rv.build import build
from rv.checks.p02 import illegal_value
from rv.checks.p03 import near, near_space
from rv.model import Model, Undecided
from rv.mon import cfg_state, check_config, fingerprint, real_defaults, values_equal
from rv.spec import describe, gen_spec, hard, large, legal_value, random_values

RULE = (
    "a state is a distinct (space, active set and discrete values, inactive names that were given values) whose "
    "imputation or deactivation was compared with the reference model"
)
NEEDS = [
    "verdict:imputed", "verdict:near-deactivated", "verdict:impute-deactivate", "verdict:deactivated", "verdict:deactivate-refuses", "had-inactive", "verdict:imputed-number", "verdict:impute-number-refused", "verdict:strategy-refused", "with-extra-values",
    "from-vector",
]


def impute(ctx, rng, model, cs, cfg, dflt):
    values = dict(cfg)
    before = cfg_state(cfg)
    want = {n: values.get(n, dflt[n]) for n in model.hps}
    try:
        hit = bool(model.forbidden(want))
    except Undecided:
        ctx.skip("rounding")
        return
    out = err = None
    try:
        out = impute_inactive_values(cfg)
    except ForbiddenValueError as e:
        err = e
    ctx.check(cfg_state(cfg) == before, "impute-unchanged", lambda: f"{before} became {cfg_state(cfg)}")
    if err is not None:
        ctx.check(hit, "impute-refused", lambda: f"{err!r} for {values}")
        return
    got = dict(out)
    ctx.check(values_equal(got, want), "imputed", lambda: f"{got} instead of {want}")
    ctx.event("had-inactive", len(want) > len(values))
    back = deactivate_inactive_hyperparameters(got, cs)
    ctx.check(values_equal(dict(back), values), "impute-deactivate", lambda: f"{dict(back)} instead of {values}")
    ctx.check(back == cfg or not values_equal(dict(back), values, 0), "impute-deactivate-equal", lambda: f"{dict(back)} and {values}")


def impute_number(ctx, rng, model, cs, cfg, defs):
    """Inactive ones get the given number, if they can take it."""
    values = dict(cfg)
    rest = [n for n in defs if n not in values]
    num = rng.choice([0.5, 1.0, 2.0, -1.0, 0.0, 3.0, -3.0])
    if rest and rng.random() < 0.7:
        v = legal_value(rng, defs[rng.choice(rest)])
        num = float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else num
    want = {**values, **{n: num for n in rest}}
    try:
        bad = any(not model.hps[n].legal(num) for n in rest)
        hit = not bad and bool(model.forbidden(want))
    except Undecided:
        ctx.skip("rounding")
        return
    before = cfg_state(cfg)
    out = err = None
    try:
        out = impute_inactive_values(cfg, strategy=num)
    except ValueError as e:
        err = e
    ctx.check(cfg_state(cfg) == before, "impute-unchanged", lambda: f"{before} became {cfg_state(cfg)}")
    if bad or hit:
        ctx.check(err is not None, "impute-number-refused", lambda: f"{num} for {rest} of {values} gives {dict(out)}")
    else:
        # a child of a parent which got the number can be active now, all are set anyway
        ctx.check(err is None and values_equal(dict(out), want), "imputed-number", lambda: f"{err!r} {out and dict(out)} instead of {want}")
    for s in ("Default", "mean", None, 3):
        if rest:
            try:
                impute_inactive_values(cfg, strategy=s)
                ctx.check(False, "strategy-refused", lambda: f"{s!r}")
            except ValueError:
                ctx.check(True, "strategy-refused")


def deactivate(ctx, rng, model, cs, cfg, defs, key):
    """Give values to some inactive hyperparameters; they vanish again."""
    values = dict(cfg)
    extra = {}
    p = rng.choice([0.0, 0.5, 1.0])
    for n in defs:
        if n not in values and rng.random() < p:
            extra[n] = legal_value(rng, defs[n])
    given = {**values, **extra}
    items = list(given.items())
    rng.shuffle(items)
    given = dict(items)
    copy = dict(given)
    out = deactivate_inactive_hyperparameters(given, cs)
    ctx.check(values_equal(dict(out), values), "deactivated", lambda: f"{dict(out)} instead of {values} from {copy}")
    ctx.check(given == copy, "deactivate-unchanged", lambda: f"{copy} became {given}")
    check_config(ctx, model, cs, out, "deactivated")
    if extra:
        ctx.event("with-extra-values")
    vec = np.full(len(defs), np.nan)
    for n, v in copy.items():
        vec[cs.index_of[n]] = cs[n].to_vector(v)
    keep = vec.copy()
    out = deactivate_inactive_hyperparameters(None, cs, vector=vec)
    ctx.event("from-vector")
    ctx.check(values_equal(dict(out), values), "deactivated-vector", lambda: f"{dict(out)} instead of {values} from {copy}")
    ctx.check(np.array_equal(vec, keep, equal_nan=True), "deactivate-vector-unchanged")
    ctx.state(key, fingerprint(model, values), sorted(extra))
    # incomplete or illegal
    if values:
        bad = dict(copy)
        n = rng.choice(list(values))
        if rng.random() < 0.5:
            bad.pop(n)
        else:
            bad[n] = illegal_value(rng, defs[n])
        try:
            r = deactivate_inactive_hyperparameters(bad, cs)
            ctx.check(False, "deactivate-refuses", lambda: f"{bad} gives {dict(r)}")
        except (ValueError, KeyError):
            ctx.check(True, "deactivate-refuses")


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 4, 6, 8]), "p_cond": rng.choice([0.5, 0.9])} | kw))
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    dflt = real_defaults(cs)
    key = repr(describe(spec)) + repr(sorted(defs))
    cfgs = [cs.get_default_configuration(), *cs.sample_configuration(3)]
    for _ in range(4):
        v = random_values(rng, model, defs)
        if not model.forbidden(v):
            cfgs.append(Configuration(cs, values=v))
    for cfg in cfgs:
        impute(ctx, rng, model, cs, cfg, dflt)
        impute_number(ctx, rng, model, cs, cfg, defs)
        deactivate(ctx, rng, model, cs, cfg, defs, key)
    ctx.sample(describe(spec))


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([5, 7, 9]), p_cond=0.95, small=True, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


def case_near(ctx, rng):
    """Values that almost equal the value of a condition."""
    cs, near_values = near_space(rng)
    ctx.note(space=str(cs), near=near_values)
    for _ in range(6):
        given = {n: hp.default_value for n, hp in cs.items()}
        for n, xs in near_values.items():
            given[n] = rng.choice([given[n], *xs, *[near(rng, x) for x in xs]])
            if not cs[n].legal_value(given[n]):
                given[n] = cs[n].default_value
        cfg = deactivate_inactive_hyperparameters(given, cs)
        cfg.check_valid_configuration()
        got = dict(cfg)
        ctx.check(all(abs(got[n] - given[n]) < 1e-12 if n in near_values else got[n] == given[n] for n in got), "near-deactivated", lambda: f"{got} of {given}")
        ctx.check(set(got) == set(cs.get_active_hyperparameters(cfg)), "near-deactivated", lambda: f"{got} of {given}")
        full = dict(impute_inactive_values(cfg))
        ctx.check(dict(deactivate_inactive_hyperparameters(full, cs)) == got, "near-deactivated", lambda: f"{full} back to {got}")
        ctx.state("near", str(cs), repr(sorted(given.items())))


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("nested", case_nested, 60, 2500),
    ("random", case_random, 60, 2500),
    ("near", case_near, 30, 1000),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 150),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
