"""P02: validation accepts exactly the valid configurations."""
from __future__ import annotations

import itertools
import math

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.exceptions import (
    ActiveHyperparameterNotSetError,
    ForbiddenValueError,
    IllegalValueError,
    InactiveHyperparameterSetError,
)
from ConfigSpace.exceptions import IllegalVectorizedValueError

from rv.build import build
from rv.model import HP, Model, Undecided, dlcs, forb_names
from rv.mon import fingerprint, values_equal
from rv.spec import describe, gen_spec, hard, large, legal_value, random_values

RULE = (
    "a state is a distinct (space, assignment with its discrete values, representation, set of "
    "defects) on which the library's verdict was compared with the reference model's"
)
NEEDS = [
    "accepted:values", "accepted:vector", "refused:values:unset", "refused:values:inactive", "refused:values:illegal",
    "refused:values:forbidden", "refused:values:unknown", "refused:vector:unset", "refused:vector:inactive",
    "refused:vector:illegal", "refused:vector:forbidden", "allowed:valid", "allowed:invalid", "refused:allowed:unset", "refused:allowed:forbidden",
]
ASSUMPTIONS = ["numbers so close to a bound or an integer that rounding decides are left undecided"]

KINDS = {
    "unset": (ActiveHyperparameterNotSetError,),
    "inactive": (InactiveHyperparameterSetError,),
    "illegal": (IllegalValueError, IllegalVectorizedValueError),
    "forbidden": (ForbiddenValueError,),
}


def judge(ctx, rep, defects, err, text, also=()):
    """The verdict: accepted iff there is no defect, refused with a fitting error."""
    if not defects:
        ctx.check(err is None, f"{rep}-accept-valid", lambda: f"{err!r} for {text()}")
        ctx.event(f"accepted:{rep}")
        return
    if not ctx.check(err is not None, f"{rep}-refuse-invalid", lambda: f"{sorted(defects)} accepted in {text()}"):
        return
    for d in defects:
        ctx.event(f"refused:{rep}:{d}")
    if not ctx.check(isinstance(err, ValueError), f"{rep}-error-type", lambda: f"{err!r} for {sorted(defects)} in {text()}"):
        return
    if "unknown" in defects:
        return
    if "illegal" in defects:
        fits = tuple(itertools.chain(*KINDS.values()))
    else:
        fits = tuple(itertools.chain(*[KINDS[d] for d in {*defects, *also}]))
    ctx.check(isinstance(err, fits), f"{rep}-error-kind", lambda: f"{err!r} for {sorted(defects)} in {text()}")


def try_values(ctx, model, cs, values, key):
    try:
        defects = model.defects(values)
        act = set(model.active_names({k: v for k, v in values.items() if k in model.hps})) if not defects & {"illegal", "unknown"} else set()
        also = {"forbidden"} if act and model.forbidden({n: v for n, v in values.items() if n in act}) else ()
    except Undecided:
        ctx.skip("rounding")
        return
    given = dict(values)
    cfg = err = None
    try:
        cfg = Configuration(cs, values=given)
    except Exception as e:  # noqa: BLE001
        err = e
    judge(ctx, "values", defects, err, lambda: values, also)
    ctx.state(key, "values", repr(sorted((k, "*" if isinstance(v, float) else repr(v)) for k, v in values.items())), sorted(defects))
    if cfg is None:
        return
    ctx.check(values_equal(dict(cfg), values, 1e-12), "values-kept", lambda: f"{dict(cfg)} instead of {values}")
    # the vector of an accepted configuration is accepted as well, and its object too
    for how in (cfg.check_valid_configuration, Configuration(cs, vector=np.array(cfg.get_array())).check_valid_configuration):
        try:
            how()
            ctx.check(True, "revalidate")
        except ValueError as e:
            ctx.check(False, "revalidate", lambda: f"{e!r} for {values}")


def vector_defects(model, cs, vec):
    """Defects of a vector; raises Undecided where rounding decides."""
    out = set()
    values = {}
    for n, hp in model.hps.items():
        x = float(vec[cs.index_of[n]])
        if math.isnan(x):
            continue
        if not hp.legal_vec(x):
            out.add("illegal")
            continue
        values[n] = hp.unvec(x)
        if hp.is_int and 0 < abs(x - float(cs[n].to_vector(values[n]))) < 1e-9:
            raise Undecided  # clauses and conditions compare entries exactly
    if out:
        return out, values, ()
    model.fuzzy = True
    try:
        d = model.defects(values)
        act = set(model.active_names(values))
        also = {"forbidden"} if model.forbidden({n: v for n, v in values.items() if n in act}) else ()
    finally:
        model.fuzzy = False
    return d, values, also


def try_vector(ctx, model, cs, vec, key):
    try:
        defects, values, also = vector_defects(model, cs, vec)
    except Undecided:
        ctx.skip("rounding")
        return
    err = None
    cfg = Configuration(cs, vector=np.array(vec))
    try:
        cfg.check_valid_configuration()
    except Exception as e:  # noqa: BLE001
        err = e
    judge(ctx, "vector", defects, err, lambda: f"{list(vec)} = {values}", also)
    ctx.state(key, "vector", fingerprint(model, values), sorted(defects))


FOREIGN = ["no such value", "", 10**9, -(10**9), 0.123456, math.nan, math.inf, -math.inf, object(), (1, 2), (1,), [0.5], {}, 1 + 2j]


def illegal_value(rng, d):
    hp = HP(d)
    for _ in range(20):
        if hp.is_int and rng.random() < 0.5:
            v = rng.choice([hp.lo - 1, hp.hi + 1, hp.lo + 0.5, hp.hi - 0.5, hp.hi + 100, hp.lo - 100])
        elif hp.is_float and rng.random() < 0.6:
            v = rng.choice([hp.lo - 1e-6 * max(1, abs(hp.lo)), hp.hi + 1e-6 * max(1, abs(hp.hi)), hp.lo - 1, hp.hi * 2 + 5])
        else:
            v = rng.choice(FOREIGN)
        try:
            if not hp.legal(v):
                return v
        except Undecided:
            continue
    return "no such value at all"


def mutate_values(rng, model, defs, values):
    v = dict(values)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        names = list(model.hps)
        if r < 0.3 and v:
            n = rng.choice(list(v))
            if n in defs:
                v[n] = legal_value(rng, defs[n])
        elif r < 0.5 and v:
            v.pop(rng.choice(list(v)))
        elif r < 0.75:
            n = rng.choice(names)
            v[n] = legal_value(rng, defs[n])
        elif r < 0.92:
            n = rng.choice(names)
            v[n] = illegal_value(rng, defs[n])
        else:
            v[rng.choice(["", "nope", names[0] + "x", names[0] + ":", " "])] = 1
    return v


def to_vec(model, cs, values):
    vec = np.full(len(model.hps), np.nan)
    for n, x in values.items():
        vec[cs.index_of[n]] = model.hps[n].vec(x)
    return vec


def mutate_vector(rng, model, cs, defs, vec):
    vec = np.array(vec)
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(list(model.hps))
        i = cs.index_of[n]
        r = rng.random()
        if r < 0.3:
            vec[i] = np.nan
        elif r < 0.7:
            vec[i] = model.hps[n].vec(legal_value(rng, defs[n]))
        else:
            vec[i] = rng.choice([-0.3, 1.4, 0.5, -1, 2, 0.37, 7, 100.0, np.inf, -np.inf, 1e300, -5.5, len(model.hps[n].choices or []) or 3])
    return vec


def case_random(ctx, rng, spec=None, n=40, **kw):
    spec = spec or gen_spec(rng, **kw)
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=1, rng=rng)
    key = repr(describe(spec)) + repr(sorted(defs))
    for _ in range(n):
        values = random_values(rng, model, defs)
        try_values(ctx, model, cs, values, key)
        try_values(ctx, model, cs, mutate_values(rng, model, defs, values), key)
        vec = to_vec(model, cs, values)
        try_vector(ctx, model, cs, vec, key)
        try_vector(ctx, model, cs, mutate_vector(rng, model, cs, defs, vec), key)
    ctx.sample(describe(spec))


def case_allowed(ctx, rng, **kw):
    """Inactive hyperparameters may have values if asked for, all else is refused as usual."""
    spec = gen_spec(rng, **({"n": rng.choice([3, 5, 8]), "p_cond": 0.8, "n_forb": rng.choice([0, 2, 5])} | kw))
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=1, rng=rng)
    key = repr(describe(spec)) + repr(sorted(defs))
    # values of the others decide about more than themselves
    used = {x[2] for c in spec["conds"] for x in dlcs(c)} | {n for f in spec["forbs"] for n in forb_names(f)}
    for i in range(30):
        v = random_values(rng, model, defs)
        v = mutate_values(rng, model, defs, v) if i % 2 else v
        try:
            defects = model.defects(v)
            if defects & {"inactive", "unknown"}:
                continue
            act = set(model.active_names(v)) if "illegal" not in defects else set(v)
            also = {"forbidden"} if "illegal" not in defects and model.forbidden({n: x for n, x in v.items() if n in act}) else ()
        except Undecided:
            ctx.skip("rounding")
            continue
        more = {n: legal_value(rng, defs[n]) for n in defs if n not in v and n not in act and n not in used and rng.random() < 0.8} if "illegal" not in defects else {}
        w = {**v, **more}
        cfg = err = None
        try:
            cfg = Configuration(cs, values=w, allow_inactive_with_values=True)
        except Exception as e:  # noqa: BLE001
            err = e
        judge(ctx, "allowed", defects, err, lambda: w, also)
        if more:
            ctx.event("allowed:" + ("valid" if not defects else "invalid"))
        if cfg is not None:
            ctx.check(values_equal(dict(cfg), w, 1e-12), "allowed-kept", lambda: f"{dict(cfg)} instead of {w}")
        ctx.state(key, "allowed", repr(sorted((k, "*" if isinstance(x, float) else repr(x)) for k, x in w.items())), sorted(defects))
        if "illegal" in defects:
            continue
        cfg, err = Configuration(cs, vector=to_vec(model, cs, w), allow_inactive_with_values=True), None
        try:
            cfg.check_valid_configuration()
        except Exception as e:  # noqa: BLE001
            err = e
        judge(ctx, "allowed", defects, err, lambda: w, also)


def case_nested(ctx, rng):
    case_random(ctx, rng, n=40, spec=gen_spec(rng, n=rng.choice([4, 6, 8]), p_cond=0.95, small=True,
                                              kinds=["cat", "cat", "ord", "uint", "ufloat", "const"]))


def case_forbidden(ctx, rng):
    spec = gen_spec(rng, n=rng.choice([2, 3, 4]), p_cond=rng.choice([0, 0.6]), n_forb=rng.choice([3, 6, 10]), small=True, accept=0.05)
    case_random(ctx, rng, spec=spec)


def case_exhaustive(ctx, rng):
    """All assignments of a small discrete space, each name set or unset."""
    for _ in range(10):
        spec = gen_spec(rng, n=rng.choice([3, 4, 5]), p_cond=0.8, n_forb=rng.choice([0, 1, 3]), small=True,
                        kinds=["cat", "cat", "ord", "const", "uint"])
        hps = [HP(d) for d in spec["hps"]]
        total = math.prod(h.size + 1 for h in hps)
        if total <= 1500:
            break
    else:
        ctx.skip("too-many-assignments")
        return
    ctx.note(spec=spec)
    model = Model(spec)
    cs = build(spec, seed=1, rng=rng)
    key = repr(describe(spec)) + repr(sorted(model.hps))
    names = [h.name for h in hps]
    for combo in itertools.product(*[[None, *range(int(h.size))] for h in hps]):
        values = {}
        for h, n, i in zip(hps, names, combo):
            if i is not None:
                values[n] = h.all_values()[i]
        try_values(ctx, model, cs, values, key)
        try_vector(ctx, model, cs, to_vec(model, cs, values), key)
    ctx.event("exhausted-space")


def case_shape(ctx, rng):
    """Vectors of the wrong length and neither or both representations."""
    spec = gen_spec(rng)
    cs = build(spec, seed=1)
    good = np.array(cs.get_default_configuration().get_array())
    bad = [np.append(good, 0.0), np.vstack([good, good]), np.array([])]
    if len(good) > 1:
        bad += [good[:-1], good.reshape(1, -1), good.reshape(-1, 1, 1)]
        bad += [good.reshape(k, -1) for k in range(2, len(good)) if len(good) % k == 0]
    col = Configuration(cs, vector=good.reshape(-1, 1))
    ctx.check(col == Configuration(cs, vector=good) and np.array_equal(col.get_array(), good, equal_nan=True), "column-accepted", lambda: f"{dict(col)}")
    for v in bad:
        try:
            Configuration(cs, vector=v)
            ctx.check(False, "wrong-shape-refused", lambda: v.shape)
        except ValueError:
            ctx.check(True, "wrong-shape-refused")
    for kw in ({}, {"values": dict(cs.get_default_configuration()), "vector": good}):
        try:
            Configuration(cs, **kw)
            ctx.check(False, "one-representation", lambda: kw)
        except ValueError:
            ctx.check(True, "one-representation")


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("exhaustive", case_exhaustive, 6, 250),
    ("random", case_random, 30, 1200),
    ("nested", case_nested, 20, 800),
    ("forbidden", case_forbidden, 30, 1000),
    ("allowed", case_allowed, 20, 800),
    ("shape", case_shape, 8, 80),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 3, 120),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
