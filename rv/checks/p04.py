"""P04: conditions mean the same in every representation."""
from __future__ import annotations

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.conditions import Conjunction
from ConfigSpace.types import NotSet

from rv.build import build, make_cond, make_hp
from rv.extract import canon_cond, cond_spec
from rv.model import HP, Model, Undecided, child_of, dlcs
from rv.mon import fingerprint
from rv.spec import close_value, describe, gen_cond, gen_full_cond, gen_hp, gen_spec, interior_value, hard, large, legal_value, random_values, shape

RULE = (
    "a state is a distinct (condition shape with its parents' kinds, parent values or unset, answer) for "
    "which all representations were compared with the reference model"
)
NEEDS = [
    "satisfied:value:True", "satisfied:value:False", "satisfied:inactive-parent", "verdict:array", "verdict:vector",
    "verdict:value", "verdict:active-set", "op:EQ", "op:NE", "op:LT", "op:GT", "op:IN", "op:AND", "op:OR",
]
ASSUMPTIONS = ["vectors are those of legal values; float comparisons closer than 1e-9 only with equal values"]


def walk(c, rc):
    """All pairs (spec, real) of a condition and its parts."""
    yield c, rc
    if c[0] in ("AND", "OR"):
        for x, rx in zip(c[1], rc.components):
            yield from walk(x, rx)


def partial_values(rng, model, defs):
    """Values for a random subset: the others are unset (inactive)."""
    p = rng.choice([0.3, 0.6, 0.9])
    return {n: legal_value(rng, defs[n]) for n in defs if rng.random() < p}


def near_values(rng, model, defs, values):
    """Move some parents onto the value they are compared with."""
    out = dict(values)
    for c in model.cond.values():
        for x in dlcs(c):
            if rng.random() < 0.3 and x[2] in out:
                v = rng.choice(x[3]) if x[0] == "IN" else x[3]
                out[x[2]] = v if rng.random() < 0.7 else close_value(rng, defs[x[2]], v)
    return out


def watch(ctx, rng, spec, cs, batch=12):
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    conds = {child_of(cond_spec(c)): c for c in cs.conditions}
    pairs = []
    for child, c in model.cond.items():
        rc = conds.get(child)
        if not ctx.check(rc is not None, "condition-present", child):
            continue
        got = cond_spec(rc)
        if not ctx.check(canon_cond(got) == canon_cond(c), "condition-kept", lambda: f"{got} instead of {c}"):
            continue
        pairs += list(walk(got, rc))
    if not pairs:
        return
    rows = []
    for _ in range(batch):
        if rng.random() < 0.5:
            v = random_values(rng, model, defs)
            v = near_values(rng, model, defs, v) if rng.random() < 0.5 else v
        else:
            v = near_values(rng, model, defs, partial_values(rng, model, defs))
        rows.append(v)
    mat = np.full((len(defs), len(rows)), np.nan)
    for j, v in enumerate(rows):
        for n, x in v.items():
            mat[cs.index_of[n], j] = cs[n].to_vector(x)
    for c, rc in pairs:
        ctx.event("op:" + c[0])
        arr = rc.satisfied_by_vector_array(mat.copy())
        ctx.check(np.shape(arr) == (len(rows),), "array-shape", lambda: np.shape(arr))
        for j, v in enumerate(rows):
            try:
                want = model.holds(c, v)
            except Undecided:
                ctx.skip("rounding")
                continue
            ps = {x[2] for x in dlcs(c)}
            given = dict(v)
            got_v = rc.satisfied_by_value({n: given.get(n, NotSet) for n in defs})
            got_x = rc.satisfied_by_vector(mat[:, j].copy())
            info = lambda: f"{c} with { {p: v.get(p) for p in ps} }: value {got_v} vector {got_x} array {arr[j]}, want {want}"  # noqa: E731
            ctx.check(bool(got_v) == want, "value", info)
            ctx.check(bool(got_x) == want, "vector", info)
            ctx.check(bool(arr[j]) == want, "array", info)
            ctx.event(f"satisfied:value:{want}")
            if any(p not in v for p in ps):
                ctx.event("satisfied:inactive-parent")
            ctx.state(shape(c), [(defs[p]["k"], "unset" if p not in v else "*" if HP(defs[p]).is_float else repr(v[p])) for p in sorted(ps)], want)


def watch_active(ctx, rng, spec, cs):
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    for _ in range(5):
        v = random_values(rng, model, defs)
        try:
            if model.forbidden(v):
                continue
            want = set(model.active_names(v))
        except Undecided:
            continue
        cfg = Configuration(cs, values=v)
        got = cs.get_active_hyperparameters(cfg)
        ctx.check(set(got) == want, "active-set", lambda: f"{got} instead of {want} for {v}")
        got = cs.get_active_hyperparameters(cfg.get_array().copy())
        ctx.check(set(got) == want, "active-set", lambda: f"{got} instead of {want} for {v}")
        ctx.check(set(cfg) == want, "active-keys", lambda: f"{set(cfg)} instead of {want}")
        ctx.state("active", repr(describe(spec)), fingerprint(model, v))
    for c in cs.sample_configuration(8):
        try:
            want = set(model.active_names(dict(c)))
        except Undecided:
            continue
        ctx.check(set(c) == want, "active-sampled", lambda: f"{dict(c)} but {want} are active")


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([3, 5, 7, 9]), "p_cond": 0.85} | kw))
    ctx.note(spec=spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    watch(ctx, rng, spec, cs)
    watch_active(ctx, rng, spec, cs)
    ctx.sample(describe(spec))


def case_twins(ctx, rng):
    """Several children whose conditions are equal or nearly equal."""
    np_ = rng.choice([2, 3])
    ps = [gen_hp(rng, "p%d" % i, small=True) for i in range(np_)]
    base = gen_full_cond(rng, "c0", ps)
    from rv.spec import rename_child

    conds = [base]
    kids = ["c0"]
    for i in range(1, rng.choice([3, 4, 5])):
        ch = "c%d" % i
        r = rng.random()
        c = rename_child(base, ch)
        if r < 0.35:
            pass
        elif c[0] in ("AND", "OR") and r < 0.6:
            c = ("OR" if c[0] == "AND" else "AND", c[1])
        elif c[0] in ("AND", "OR") and r < 0.8:
            parts_ = list(c[1])
            j = rng.randrange(len(parts_))
            parts_[j] = gen_cond(rng, ch, rng.choice(ps))
            c = (c[0], parts_)
        elif c[0] in ("EQ", "NE", "LT", "GT"):
            d = [x for x in ps if x["name"] == c[2]][0]
            ops = ["EQ", "NE"] + (["LT", "GT"] if HP(d).orderable else [])
            c = (rng.choice(ops), ch, c[2], rng.choice([c[3], interior_value(rng, d)]))
        else:
            c = gen_full_cond(rng, ch, ps)
        conds.append(c)
        kids.append(ch)
    hps = ps + [gen_hp(rng, k, ["cat", "uint", "const", "ufloat"], small=True) for k in kids]
    names = {}
    pool = ["n%02d" % i for i in range(len(hps))]
    rng.shuffle(pool)
    for h, nm in zip(hps, pool):
        names[h["name"]] = nm

    def ren(c):
        if c[0] in ("AND", "OR"):
            return (c[0], [ren(x) for x in c[1]])
        return (c[0], names[c[1]], names[c[2]], c[3])

    hps = [{**h, "name": names[h["name"]]} for h in hps]
    spec = {"hps": hps, "conds": [ren(c) for c in conds], "forbs": []}
    ctx.note(spec=spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    watch(ctx, rng, spec, cs)
    watch_active(ctx, rng, spec, cs)


def case_values(ctx, rng):
    """Conditions outside of any space, evaluated on values only."""
    ps = [gen_hp(rng, n) for n in "abc"]
    child = gen_hp(rng, "z")
    hps = {d["name"]: make_hp(d) for d in [*ps, child]}
    model = Model({"hps": [*ps, child], "conds": [], "forbs": []})
    defs = {d["name"]: d for d in ps}
    for _ in range(4):
        c = gen_full_cond(rng, "z", ps)
        ctx.note(cond=c, hps=ps)
        rc = make_cond(c, hps)
        for _ in range(10):
            v = partial_values(rng, model, defs)
            for x in dlcs(c):
                if rng.random() < 0.4 and x[2] in v:
                    v[x[2]] = rng.choice(x[3]) if x[0] == "IN" else x[3]
            try:
                want = model.holds(c, v)
            except Undecided:
                continue
            got = rc.satisfied_by_value({n: v.get(n, NotSet) for n in defs})
            ctx.check(bool(got) == want, "value-outside", lambda: f"{c} on {v}: {got} instead of {want}")
    ctx.check(rc.child.name == "z" if not isinstance(rc, Conjunction) else all(x.child.name == "z" for x in rc.dlcs), "child")


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([5, 6, 8]), p_cond=0.95, small=True, n_forb=0, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("twins", case_twins, 80, 2000),
    ("random", case_random, 60, 1800),
    ("nested", case_nested, 50, 1500),
    ("values", case_values, 40, 800),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 150),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
