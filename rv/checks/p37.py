"""P37: it does not matter in which form values are given."""
from __future__ import annotations

import copy
import io
import json
import pickle

import numpy as np
from ConfigSpace import (
    CategoricalHyperparameter,
    Configuration,
    ConfigurationSpace,
    EqualsCondition,
    ForbiddenAndConjunction,
    ForbiddenEqualsClause,
    ForbiddenInClause,
    InCondition,
)
from ConfigSpace.util import generate_grid, get_one_exchange_neighbourhood

from rv import given
from rv.build import build, make_cond, make_forb, make_hp
from rv.checks.p02 import mutate_values
from rv.checks.p15 import judge_reports
from rv.checks.p17 import yaml
from rv.extract import canon_hp, canon_of, hp_spec
from rv.hpgen import wide_hp
from rv.model import HP, NUM, Model, Undecided, forb_names
from rv.mon import cfg_state, plain, snapshot
from rv.spec import describe, gen_spec, hard, large, legal_value, random_values

RULE = "a state is a distinct (space, form in which its values were given) compared with the space given in plain values, or a distinct (hyperparameter, form)"
NEEDS = [
    "verdict:equal", "verdict:content", "verdict:default", "verdict:same-samples", "verdict:same-text", "verdict:read-back", "verdict:accepts", "verdict:rejects", "verdict:same-vector", "verdict:assigned",
    "verdict:neighbors", "verdict:grid", "verdict:size", "verdict:copies", "verdict:cond-equal", "verdict:cond-same", "verdict:forb-equal", "verdict:forb-same", "verdict:hp-equal", "verdict:hp-same", "verdict:untouched",
    "collection:array", "collection:set", "collection:frozenset", "collection:tuple", "collection:range", "collection:deque", "collection:iterator", "collection:dict-keys",
    "added:space-list", "added:space-dict", "added:generator", "added:nested", "added:varargs", "sampled-values", "sampled-values-in-definition",
]
ASSUMPTIONS = [
    "numpy numbers are used only where they hold exactly the same number; weights are given as lists or tuples, sequences of ordinals as sequences",
    "the printed form of values is not compared",
    "numbers of less than double precision are not used in conditions and clauses, where numpy compares in the lower precision",
]


def states(cfgs):
    """Values (as far as == tells them apart) and exact vectors."""
    return [([(str(n), plain(v)) for n, v in c.items()], c.get_array().tobytes()) for c in (cfgs if isinstance(cfgs, list) else [cfgs])]


def text_of(cs):
    return json.dumps(cs.to_serialized_dict(), sort_keys=True)


def same_text(a, b):
    """Whether two texts say the same, the order of clauses aside."""
    a, b = json.loads(a), json.loads(b)
    rest = b.pop("forbiddens")
    for f in a.pop("forbiddens"):
        if f not in rest:
            return False
        rest.remove(f)
    return a == b and not rest


def same_space(ctx, rng, spec, a, b, how):
    """`a` was given in plain values, `b` in others."""
    ctx.check(a == b and b == a, "equal", lambda: f"{how}: {a}\n{b}")
    ctx.check(canon_of(a) == canon_of(b) and list(a) == list(b), "content", lambda: f"{how}: {canon_of(a)}\n{canon_of(b)}")
    ctx.check(states(a.get_default_configuration()) == states(b.get_default_configuration()), "default", lambda: f"{how}: {dict(a.get_default_configuration())} {dict(b.get_default_configuration())}")
    n = rng.choice([1, 3, 8])
    a.seed(n), b.seed(np.int32(n))
    x, y = a.sample_configuration(n), b.sample_configuration(n)
    ctx.check(states(x) == states(y), "same-samples", lambda: f"{how}: {states(x)}\n{states(y)}")
    return x if isinstance(x, list) else [x]


def case_space(ctx, rng, **kw):
    spec = gen_spec(rng, meta=rng.random() < 0.2, **kw)
    ctx.note(spec=spec)
    model, defs = Model(spec), {d["name"]: d for d in spec["hps"]}
    seed = rng.randrange(10**6)
    a, b = build(spec, seed=seed), given.build(rng, spec, seed=seed, ctx=ctx)
    ctx.note(given=[repr(h) for h in b.values()])
    ctx.state(repr(spec), repr([repr(h) for h in b.values()]))
    ctx.check(states(a.sample_configuration(3)) == states(b.sample_configuration(3)), "same-samples", "seed given")
    drawn = same_space(ctx, rng, spec, a, b, "built")
    judge_reports(ctx, spec, b)
    ctx.check(a.estimate_size() == b.estimate_size(), "size", lambda: f"{a.estimate_size()} {b.estimate_size()}")

    # writing and reading
    tb = text_of(b)
    if not any(x[0] == "IN" for x in flat(spec)):  # sets have no order
        ctx.check(same_text(text_of(a), tb), "same-text", lambda: f"{text_of(a)}\n{tb}")
    same_space(ctx, rng, spec, a, ConfigurationSpace.from_serialized_dict(json.loads(tb)), "json")
    ctx.check(ConfigurationSpace.from_serialized_dict(b.to_serialized_dict()) == a, "read-back", "dict")
    if yaml is not None and rng.random() < 0.3:
        buf = io.StringIO()
        b.to_yaml(buf)
        buf.seek(0)
        ctx.check(ConfigurationSpace.from_yaml(buf) == a, "read-back", lambda: f"yaml {buf.getvalue()}")
    for how, o in (("deepcopy", copy.deepcopy(b)), ("pickle", pickle.loads(pickle.dumps(b)))):
        ctx.check(o == a and a == o and states(o.get_default_configuration()) == states(a.get_default_configuration()), "copies", how)

    # configurations given in other forms
    before = snapshot(a), snapshot(b)
    for i in range(10):
        try:
            v = random_values(rng, model, defs)
            if i % 3 == 0:
                v = mutate_values(rng, model, defs, v)
            ok = model.valid(v)
        except Undecided:
            ctx.skip("rounding")
            continue
        w = given.mapping(rng, {n: given.value(rng, defs[n], x) if n in defs else x for n, x in v.items()})
        keep = repr(w)
        res = []
        for cs, vals in ((a, v), (a, w), (b, v), (b, w)):
            try:
                res.append(Configuration(cs, values=vals))
            except ValueError:
                res.append(None)
        ctx.check(repr(w) == keep, "untouched", lambda: f"{keep} {w}")
        ctx.check([r is not None for r in res] == [ok] * 4, "accepts" if ok else "rejects", lambda: f"{v} {w}: {[r is not None for r in res]} instead of {ok}")
        if ok and None not in res:
            vec = [r.get_array().tobytes() for r in res]
            ctx.check(len(set(vec)) == 1, "same-vector", lambda: f"{v} {w}: {[list(r.get_array()) for r in res]}")
            ctx.check(all(states(r) == states(res[0]) and r[n] == v[n] for r in res for n in v), "same-vector", lambda: f"{[dict(r) for r in res]}")
            # vectors of other types and orders
            arr = res[0].get_array()
            for o in (arr.astype(np.float64, order="F"), arr[::1], arr.reshape(-1, 1), np.array(list(arr))):
                ctx.check(states(Configuration(b, vector=o.copy())) == states(Configuration(a, vector=arr.copy())), "same-vector", lambda: f"vector {o}")
    ctx.check((snapshot(a), snapshot(b)) == before, "untouched", "the spaces")

    # what the library hands out may be given back
    for c in drawn[:3]:
        ctx.event("sampled-values")
        vals = dict(c)
        r = [Configuration(b, values=vals), Configuration(b, values=c), Configuration(b, values={n: hp_roundtrip(b[n], x) for n, x in vals.items()})]
        ctx.check(all(states(x) == states(Configuration(a, values={n: plain(v) for n, v in vals.items()})) for x in r[:2]) and all(close(x, c) for x in r), "same-vector", lambda: f"{dict(c)} {r}")

    # assignments
    for _ in range(3):
        c = rng.choice(drawn)
        n = rng.choice(list(c))
        v = legal_value(rng, defs[n])
        x, y = Configuration(a, values=dict(c)), Configuration(b, values=dict(c))
        res = []
        for t, val in ((x, v), (y, given.value(rng, defs[n], v))):
            try:
                t[n] = val
                res.append("set")
            except ValueError as e:
                res.append(type(e).__name__)
        ctx.check(res[0] == res[1] and states(x) == states(y), "assigned", lambda: f"{n} := {v}: {res} {dict(x)} {dict(y)}")

    # neighbors and grids
    if any(HP(d).size > 1 for d in spec["hps"]):
        c = rng.choice(drawn)
        s = rng.randrange(1000)
        res = []
        for cs, sd, nn in ((a, s, 4), (b, s, np.int64(4))):
            it = get_one_exchange_neighbourhood(Configuration(cs, values=dict(c)), seed=sd, num_neighbors=nn)
            res.append([cfg_state(o) for _, o in zip(range(15), it)])
        ctx.check(res[0] == res[1], "neighbors", lambda: f"{res}")
    if all(d["k"] in ("cat", "ord", "const", "uint", "ufloat") for d in spec["hps"]):
        steps = {d["name"]: rng.choice([1, 2, 3]) for d in spec["hps"] if d["k"] in ("uint", "ufloat")}
        if np.prod([float(steps.get(d["name"], HP(d).size)) for d in spec["hps"]]) <= 300:
            other = {np.str_(n): np.int64(k) for n, k in steps.items()}
            ctx.check(states(generate_grid(a, steps)) == states(generate_grid(b, other)), "grid", lambda: f"{steps}")
    ctx.sample(describe(spec))


def key(d, v):
    return (type(plain(v)).__name__, plain(v)) if d["k"] in NUM else repr(plain(v))


def close(x, y):
    return list(x) == list(y) and np.allclose(x.get_array(), y.get_array(), rtol=1e-6, atol=1e-6, equal_nan=True)


def hp_roundtrip(hp, v):
    return hp.to_value(hp.to_vector(v))


def flat(spec):
    out, todo = [], [*spec["conds"], *spec["forbs"]]
    while todo:
        x = todo.pop()
        if x[0] in ("AND", "OR"):
            todo += x[1]
        else:
            out.append(x)
    return out


def case_parts(ctx, rng):
    """Conditions and clauses on their own."""
    spec = gen_spec(rng, n=rng.choice([3, 5, 7]), p_cond=0.9, n_forb=4, small=rng.random() < 0.5)
    ctx.note(spec=spec)
    defs = {d["name"]: d for d in spec["hps"]}
    hps = {n: make_hp(d) for n, d in defs.items()}
    others = {n: given.hp(rng, d) for n, d in defs.items()}
    mapped = rng.choice([hps, others])

    def some(n):
        return legal_value(rng, defs[n])

    for c in spec["conds"]:
        x, y = make_cond(c, hps), given.cond(rng, c, mapped, defs, ctx)
        ctx.check(x == y and y == x, "cond-equal", lambda: f"{x!r} {y!r}")
        ctx.check(copy.copy(y) == x and pickle.loads(pickle.dumps(y)) == x, "cond-equal", lambda: f"copies {y!r}")
        names = {p[2] for p in flat({"conds": [c], "forbs": []})}
        for _ in range(6):
            v = {n: some(n) for n in names}
            w = {n: given.value(rng, defs[n], u, True) for n, u in v.items()}
            r = [bool(x.satisfied_by_value(v)), bool(x.satisfied_by_value(w)), bool(y.satisfied_by_value(v)), bool(y.satisfied_by_value(w))]
            ctx.check(len(set(r)) == 1, "cond-same", lambda: f"{y!r} {v} {w}: {r}")
    for f in spec["forbs"]:
        x, y = make_forb(f, hps), given.forb(rng, f, mapped, defs, ctx)
        ctx.check(x == y and y == x, "forb-equal", lambda: f"{x!r} {y!r}")
        ctx.check(copy.copy(y) == x and pickle.loads(pickle.dumps(y)) == x, "forb-equal", lambda: f"copies {y!r}")
        names = set(forb_names(f))
        for _ in range(6):
            v = {n: some(n) for n in names}
            w = {n: given.value(rng, defs[n], u, True) for n, u in v.items()}
            r = [bool(x.is_forbidden_value(v)), bool(x.is_forbidden_value(w)), bool(y.is_forbidden_value(v)), bool(y.is_forbidden_value(w))]
            ctx.check(len(set(r)) == 1, "forb-same", lambda: f"{y!r} {v} {w}: {r}")


def case_hp(ctx, rng):
    """A single hyperparameter over wide ranges."""
    d = wide_hp(rng)
    ctx.note(hp=d)
    a, b = make_hp(d), given.hp(rng, d, ctx)
    ctx.note(given=repr(b))
    ctx.state(repr(d), repr(b))
    ctx.check(a == b and b == a and canon_hp(hp_spec(a)) == canon_hp(hp_spec(b)), "hp-equal", lambda: f"{a!r} {b!r}")
    ctx.check(a.size == b.size and a.is_legal(b.default_value) and b.is_legal(a.default_value), "hp-equal", lambda: f"{a!r} {b!r}")
    s = rng.randrange(10**6)
    x, y = (h.sample_value(5, seed=np.random.RandomState(s)) for h in (a, b))
    ctx.check([key(d, v) for v in x] == [key(d, v) for v in y], "hp-same", lambda: f"samples {x} {y}")
    pool = [legal_value(rng, d) for _ in range(5)] + list(x)
    for v in pool:
        v = plain(v)
        w = given.value(rng, d, v)
        r = [h.to_vector(z) for h in (a, b) for z in (v, w)]
        ctx.check(len({float(z) for z in r}) == 1, "hp-same", lambda: f"vector of {v!r} {w!r}: {r}")
        ok = [bool(h.legal_value(z)) for h in (a, b) for z in (v, w)]
        ctx.check(all(ok), "hp-same", lambda: f"legal {v!r} {w!r}: {ok}")
        back = [h.to_value(z) for h, z in ((a, r[0]), (b, r[3]))]
        ctx.check(key(d, back[0]) == key(d, back[1]), "hp-same", lambda: f"value of {v!r} {w!r}: {back}")
        p = [float(h.pdf_values([z])[0]) for h in (a, b) for z in (v, w)]
        ctx.check(len(set(p)) == 1, "hp-same", lambda: f"density of {v!r} {w!r}: {p}")
        if a.size > 1:
            nb = [list(map(lambda z: key(d, z), h.neighbors_values(z, 4, seed=np.random.RandomState(s)))) for h in (a, b) for z in (v, w)]
            ctx.check(nb.count(nb[0]) == 4, "hp-same", lambda: f"neighbors of {v!r} {w!r}: {nb}")
    vs = [plain(v) for v in pool]
    for coll in (list, tuple, given.array_of):
        z = coll(vs)
        if z is not None:
            r = [list(map(float, h.to_vector(z))) for h in (a, b)]
            ctx.check(r[0] == r[1] == [float(a.to_vector(v)) for v in vs], "hp-same", lambda: f"{coll} {vs}: {r}")


def case_drawn(ctx, rng):
    """Conditions, clauses, defaults, bounds and choices made from what the library drew."""
    spec = gen_spec(rng, n=rng.choice([3, 4, 6]), p_cond=0.0, n_forb=0)
    ctx.note(spec=spec)
    seed = rng.randrange(1000)
    src = build(spec, seed=seed)
    c = src.sample_configuration()
    vals = dict(c)
    first, *rest = list(src)
    spaces = []
    for form in (plain, lambda v: v, lambda v: given.scalar(rng, plain(v), True)):
        hps = {d["name"]: make_hp(d) for d in spec["hps"]}
        cs = ConfigurationSpace(seed=seed)
        cs.add(hps.values())
        v = {n: form(x) for n, x in vals.items()}
        cs.add(InCondition(hps[rest[0]], hps[first], [v[first]]) if seed % 2 else EqualsCondition(hps[rest[0]], hps[first], v[first]))
        clause = [ForbiddenInClause(hps[n], [v[n]]) if seed % 3 else ForbiddenEqualsClause(hps[n], v[n]) for n in list(src)]
        cl = ForbiddenAndConjunction(*clause)
        try:
            cs.add(cl)
            done = True
        except ValueError:
            done = False
        cs.add(CategoricalHyperparameter("drawn values", list(dict.fromkeys([v[n] for n in v if not isinstance(plain(v[n]), bool)]) or [0])))
        spaces.append((cs, done))
    ctx.event("sampled-values-in-definition")
    (a, da), *os = spaces
    for o, do in os:
        ctx.check(da == do, "equal", lambda: f"clause accepted {da} {do}")
        ctx.check(a == o and o == a, "equal", lambda: f"{a}\n{o}")
        ctx.check(canon_of(a) == canon_of(o), "content", lambda: f"{canon_of(a)}\n{canon_of(o)}")
        ctx.check(same_text(text_of(a), text_of(o)), "same-text", lambda: f"{text_of(a)}\n{text_of(o)}")
        ctx.check(ConfigurationSpace.from_serialized_dict(json.loads(text_of(o))) == a, "read-back", "json")
        ctx.check(states(a.get_default_configuration()) == states(o.get_default_configuration()), "default", lambda: f"{a} {o}")


CASES = [
    ("space", case_space, 50, 1500),
    ("small", lambda ctx, rng: case_space(ctx, rng, small=True, n=rng.choice([2, 3, 5]), kinds=["cat", "ord", "const", "uint", "ufloat"]), 40, 1200),
    ("parts", case_parts, 60, 1500),
    ("hp", case_hp, 120, 3000),
    ("drawn", case_drawn, 30, 800),
    ("large", lambda ctx, rng: case_space(ctx, rng, **large(rng)), 3, 100),
    ("hard", lambda ctx, rng: case_space(ctx, rng, **hard(rng)), 8, 250),
]
