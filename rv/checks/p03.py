"""P03: the default configuration is valid and holds the defaults."""
from __future__ import annotations

import math

from ConfigSpace import (
    AndConjunction,
    Configuration,
    ConfigurationSpace,
    EqualsCondition,
    GreaterThanCondition,
    InCondition,
    LessThanCondition,
    NotEqualsCondition,
    OrConjunction,
)
from ConfigSpace.exceptions import ForbiddenValueError

from rv.build import build, make_forb, make_hp, parts
from rv.model import HP, Model, Undecided, child_of, forb_names, same
from rv.mon import check_config, fingerprint, real_defaults, values_equal
from rv.spec import describe, gen_forb, gen_forb_group, gen_hp, gen_spec, hard, large

RULE = (
    "a state is a distinct (space at one point of its history, default configuration) or a distinct "
    "hyperparameter definition whose default was compared with the reference"
)
NEEDS = ["verdict:default-values", "verdict:derived-default", "verdict:declared-default", "verdict:forbidden-default-refused", "verdict:near-default"]


def expected_default(d):
    """(exact expected value or None, candidates): what an undeclared default must be."""
    hp = HP(d)
    k = d["k"]
    if k == "cat":
        w = d.get("weights")
        if not w:
            return [d["choices"][0]]
        return [c for c, x in zip(d["choices"], w) if x == max(w)]
    if k == "ord":
        return [d["seq"][0]]
    if k == "const":
        return [d["value"]]
    if k in ("nfloat", "nint"):
        x = min(max(d["mu"], d["lo"]), d["hi"])
    elif k in ("bfloat", "bint"):
        a, b = d["alpha"], d["beta"]
        m = (a - 1) / (a + b - 2) if a + b > 2 else 0.5
        x = exact(hp, m)
    else:
        x = exact(hp, 0.5)
    return x


def exact(hp, u):
    if hp.log:
        return math.exp(math.log(hp.lo) + u * (math.log(hp.hi) - math.log(hp.lo)))
    return hp.lo + u * (hp.hi - hp.lo)


def judge_hp(ctx, d, got):
    hp = HP(d)
    if "def" in d:
        ctx.check(same(got, d["def"]), "declared-default", lambda: f"{got!r} for {d}")
    else:
        want = expected_default(d)
        if isinstance(want, list):
            ok = any(same(got, w) for w in want)
        elif hp.is_float:
            ok = abs(got - want) <= 1e-9 * max(1, abs(want))
        else:
            # rounding; on a grid the mode may be computed for the widened range
            ok = abs(got - want) <= (1.0 if d["k"] == "bint" else 0.5) + 1e-6
        ctx.check(ok, "derived-default", lambda: f"{got!r} instead of {want!r} for {d}")
    try:
        legal = hp.legal(got)
    except Undecided:
        legal = False
    ctx.check(legal, "default-legal", lambda: f"{got!r} for {d}")
    if hp.is_int:
        ctx.check(float(got) == int(got), "default-is-integer", lambda: f"{got!r} for {d}")
    ctx.state("hp", repr(d))


def case_hp(ctx, rng):
    for _ in range(10):
        d = gen_hp(rng, "x")
        ctx.note(hp=d)
        ctx.event("hp:" + d["k"])
        hp = make_hp(d)
        judge_hp(ctx, d, hp.default_value)
        ctx.check(bool(hp.legal_value(hp.default_value)), "default-legal-reported", lambda: d)
        cs = ConfigurationSpace()
        cs.add(hp)
        ctx.check(same(cs.get_default_configuration()["x"], hp.default_value), "default-values", lambda: d)
        ctx.check(same(cs["x"].default_value, hp.default_value), "default-values", lambda: d)
        # near integers count as the integer
        if d["k"] in ("uint", "nint", "bint"):
            v = rng.randint(d["lo"], d["hi"])
            e = {**d, "def": v}
            for x in (float(v), v * (1 + 2e-16), v * (1 - 2e-16)):
                got = make_hp({**d, "def": x}).default_value
                ctx.check(got == v, "declared-default", lambda: f"{got!r} for declared {x!r} in {e}")


def judge_space(ctx, cs, cur, where="default"):
    m = Model({k: list(v) for k, v in cur.items()})
    dflt = real_defaults(cs)
    cfg = cs.get_default_configuration()
    want = m.default(dflt)
    ctx.check(values_equal(dict(cfg), want, 1e-12), f"{where}-values", lambda: f"{dict(cfg)} instead of {want}")
    check_config(ctx, m, cs, cfg, "default")
    ctx.state(repr(describe(cur)), fingerprint(m, dict(cfg)))
    ctx.check(not m.forbidden(want), "default-not-forbidden", lambda: want)
    # handed out independently
    for n in list(cfg):
        hp = m.hps[n]
        vals = hp.all_values(50)
        if vals and len(vals) > 1:
            try:
                cfg[n] = vals[-1] if not same(vals[-1], cfg[n]) else vals[0]
            except ValueError:
                continue
            break
    again = cs.get_default_configuration()
    ctx.check(values_equal(dict(again), want, 1e-12), "default-values-again", lambda: f"{dict(again)} instead of {want}")


def case_history(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([3, 5, 7, 9]), "p_cond": 0.8, "n_forb": rng.choice([0, 2, 5])} | kw))
    ctx.note(spec=spec)
    hps, conds, forbs = parts(spec)
    cs = ConfigurationSpace()
    cur = {"hps": [], "conds": [], "forbs": []}
    for d in spec["hps"]:
        cs.add(hps[d["name"]])
        cur["hps"].append(d)
        judge_hp(ctx, d, cs[d["name"]].default_value)
        judge_space(ctx, cs, cur)
        for c, rc in zip(spec["conds"], conds):
            if child_of(c) == d["name"]:
                cs.add(rc)
                cur["conds"].append(c)
                judge_space(ctx, cs, cur)
        cand = [(f, make_forb(f, hps)) for f in spec["forbs"] if f not in cur["forbs"]]
        extra = gen_forb_group(rng, cur["hps"]) if rng.random() < 0.4 else [gen_forb(rng, cur["hps"])]
        cand += [(f, make_forb(f, hps)) for f in extra]
        # clauses aimed at the default
        dd = Model(cur).default(real_defaults(cs))
        ns = rng.sample(sorted(dd), min(len(dd), rng.choice([1, 2, 3])))
        ns = [n for n in ns if not HP([x for x in cur["hps"] if x["name"] == n][0]).is_float]
        if ns:
            f = ("AND", [("EQ", n, dd[n]) for n in ns]) if len(ns) > 1 else ("EQ", ns[0], dd[ns[0]])
            cand.append((f, make_forb(f, hps)))
        names = {x["name"] for x in cur["hps"]}
        for f, rf in cand:
            if not set(forb_names(f)) <= names or f in cur["forbs"]:
                continue
            trial = {**cur, "forbs": [*cur["forbs"], f]}
            m = Model(trial)
            try:
                hit = bool(m.forbidden(m.default(real_defaults(cs))))
            except Undecided:
                ctx.skip("rounding")
                continue
            try:
                cs.add(rf)
                added = True
            except ForbiddenValueError:
                added = False
            ctx.check(added == (not hit), "forbidden-default-refused", lambda: f"added={added} hits default={hit} clause {f}")
            if added:
                cur["forbs"].append(f)
            judge_space(ctx, cs, cur)


def case_orders(ctx, rng):
    spec = gen_spec(rng, n=rng.choice([4, 6, 8, 12]), p_cond=0.8)
    ctx.note(spec=spec)
    for _ in range(3):
        cs = build(spec, rng=rng)
        judge_space(ctx, cs, spec)
        for d in spec["hps"]:
            judge_hp(ctx, d, cs[d["name"]].default_value)
    ctx.sample(describe(spec))


def near(rng, v):
    """The same number by another computation."""
    r = rng.random()
    if r < 0.4:
        return v + rng.choice([-2, -1, 1, 2]) * math.ulp(v)
    if r < 0.6:
        return v + rng.choice([-1, 1]) * rng.choice([1e-16, 1e-15, 1e-14, 4e-14])
    return rng.choice([v * 3 / 3, v / 7 * 7, (v + 0.1) - 0.1, sum([v / 10] * 10), v * 1.1 / 1.1])


def near_space(rng):
    """Conditions that compare a float with almost one of its values: either answer is right, but only one of them."""
    cs = ConfigurationSpace(seed=rng.randrange(100))
    dflt, near_values = {}, {}
    for i in range(rng.choice([1, 2, 3])):
        log = rng.random() < 0.4
        lo = rng.choice([0.001, 0.01, 0.05, 0.1]) if log else rng.choice([0.0, -1.0, -1000.0, 0.01, 0.1, -0.3])
        hi = rng.choice([1.0, 2.5, 10.0, 1000.0, 1e5])
        d = rng.choice([0.3, 0.6, 0.7, 0.1, 0.123456789, 1 / 3, 0.9, round(rng.uniform(0.1, 1), rng.choice([1, 2, 5, 13]))])
        kind = rng.choice(["ufloat", "ufloat", "nfloat"])
        h = {"k": kind, "name": f"f{i}", "log": log, "lo": lo, "hi": hi, "def": d}
        if kind == "nfloat":
            h |= {"mu": d, "sigma": 1.7}
        par = make_hp(h)
        cs.add(par)
        for j in range(rng.choice([1, 2])):
            child = make_hp({"k": "cat", "name": f"c{i}{j}", "choices": ["u", "v"]})
            parts_ = []
            vals = [x for x in (near(rng, d) for _ in range(3)) if lo < x < hi]
            if not vals:
                continue
            for x in vals[: rng.choice([1, 1, 2])]:
                op = rng.choice([EqualsCondition, NotEqualsCondition, GreaterThanCondition, LessThanCondition, InCondition])
                parts_.append(op(child, par, [x, hi] if op is InCondition else x))
                near_values.setdefault(par.name, []).append(x)
            c = parts_[0] if len(parts_) == 1 else rng.choice([AndConjunction, OrConjunction])(*parts_)
            cs.add(child, c)
            if rng.random() < 0.3:
                grand = make_hp({"k": "uint", "name": f"g{i}{j}", "lo": 0, "hi": 5, "log": False})
                cs.add(grand, EqualsCondition(grand, child, "u"))
    return cs, near_values


def case_near(ctx, rng):
    cs, near_values = near_space(rng)
    ctx.note(space=str(cs), near=near_values)
    cfg = cs.get_default_configuration()
    cfg.check_valid_configuration()
    vals = dict(cfg)
    for o in (Configuration(cs, values=vals), Configuration(cs, vector=cfg.get_array().copy())):
        o.check_valid_configuration()
        ctx.check(values_equal(dict(o), vals, 1e-9), "near-default", lambda: f"{dict(o)} {vals}")
    ctx.check(set(vals) == set(cs.get_active_hyperparameters(cfg)), "near-default", lambda: f"{vals} but active are {cs.get_active_hyperparameters(cfg)}")
    ctx.check(all(vals[n] == cs[n].default_value for n in vals), "near-default", lambda: f"{vals}")
    again = ConfigurationSpace.from_serialized_dict(cs.to_serialized_dict())
    ctx.check(dict(again.get_default_configuration()) == vals, "near-default", lambda: f"read back: {vals}")
    ctx.state("near", str(cs), tuple(vals))


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("hp", case_hp, 60, 1500),
    ("history", case_history, 20, 600),
    ("orders", case_orders, 40, 1200),
    ("near", case_near, 40, 1500),
    ("large", lambda ctx, rng: case_history(ctx, rng, **large(rng)), 3, 100),
    ("hard", lambda ctx, rng: case_history(ctx, rng, **hard(rng)), 8, 250),
]
