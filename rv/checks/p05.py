"""P05: forbidden clauses mean the same in every representation."""
from __future__ import annotations

import math

import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace.exceptions import ForbiddenValueError

from rv.build import build, make_forb, make_hp
from rv.extract import canon_forb, forb_spec
from rv.model import HP, Model, Undecided, forb_names
from rv.mon import fingerprint
from rv.spec import acceptance, close_value, describe, fshape, gen_forb, gen_forb_group, gen_hp, gen_spec, hard, large, legal_value, prior_pools, random_values

RULE = (
    "a state is a distinct (clause shape, values or unset of the hyperparameters it mentions, answer) for which "
    "all representations were compared with the reference model"
)
NEEDS = [
    "matched:True", "matched:False", "matched:inactive", "verdict:value", "verdict:vector", "verdict:array",
    "verdict:space-refuses", "verdict:space-accepts", "op:EQ", "op:IN", "op:AND", "op:RLT", "op:REQ", "op:RGT", "exhausted",
]
ASSUMPTIONS = ["float relations closer than 1e-9 are left undecided"]


def walk(f, rf):
    yield f, rf
    if f[0] == "AND":
        for x, rx in zip(f[1], rf.components):
            yield from walk(x, rx)


def aim(rng, f, values, defs):
    """Change values such that the clause is met, or nearly."""
    if f[0] == "AND":
        skip = rng.randrange(len(f[1])) if rng.random() < 0.4 else -1
        for i, x in enumerate(f[1]):
            if i != skip:
                aim(rng, x, values, defs)
    elif f[0] == "EQ":
        values[f[1]] = f[2] if rng.random() < 0.8 else close_value(rng, defs[f[1]], f[2])
    elif f[0] == "IN":
        v = rng.choice(f[2])
        values[f[1]] = v if rng.random() < 0.8 else close_value(rng, defs[f[1]], v)
    elif rng.random() < 0.4:
        a = values.get(f[1], legal_value(rng, defs[f[1]]))
        try:
            if HP(defs[f[2]]).legal(a):
                values[f[1]] = values[f[2]] = a
        except Undecided:
            pass


def watch(ctx, rng, spec, cs, batch=14):
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    reals = list(cs.forbidden_clauses)
    want = sorted(map(repr, map(canon_forb, spec["forbs"])))
    got = sorted(repr(canon_forb(forb_spec(f))) for f in reals)
    ctx.check(want == got, "clauses-kept", lambda: f"{got} instead of {want}")
    pairs = [p for rf in reals for p in walk(forb_spec(rf), rf)]
    if not pairs:
        return
    rows = []
    for _ in range(batch):
        v = {n: legal_value(rng, defs[n]) for n in defs if rng.random() < 0.9}
        for _ in range(rng.choice([0, 1, 1, 2])):
            aim(rng, rng.choice(spec["forbs"]), v, defs)
        if rng.random() < 0.3 and v:
            v.pop(rng.choice(list(v)))
        rows.append(v)
    mat = np.full((len(defs), len(rows)), np.nan)
    for j, v in enumerate(rows):
        for n, x in v.items():
            mat[cs.index_of[n], j] = cs[n].to_vector(x)
    for f, rf in pairs:
        ctx.event("op:" + f[0])
        arr = rf.is_forbidden_vector_array(mat.copy())
        ctx.check(np.shape(arr) == (len(rows),), "array-shape", lambda: np.shape(arr))
        for j, v in enumerate(rows):
            try:
                want = model.matches(f, v)
            except Undecided:
                ctx.skip("rounding")
                continue
            given = dict(v)
            got_v = rf.is_forbidden_value(given)
            got_x = rf.is_forbidden_vector(mat[:, j].copy())
            ns = forb_names(f)
            info = lambda: f"{f} on { {n: v.get(n) for n in ns} }: value {got_v} vector {got_x} array {arr[j]}, want {want}"  # noqa: E731
            ctx.check(bool(got_v) == want, "value", info)
            ctx.check(bool(got_x) == want, "vector", info)
            ctx.check(bool(arr[j]) == want, "array", info)
            ctx.check(given == v, "value-unchanged")
            ctx.event(f"matched:{want}")
            if any(n not in v for n in ns):
                ctx.event("matched:inactive")
            ctx.state(fshape(f), [(defs[n]["k"], "unset" if n not in v else "*" if HP(defs[n]).is_float else repr(v[n])) for n in ns], want)


def watch_space(ctx, rng, spec, cs, n=14):
    """The space as a whole refuses exactly what some clause matches."""
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    for _ in range(n):
        v = random_values(rng, model, defs)
        if spec["forbs"] and rng.random() < 0.7:
            aim(rng, rng.choice(spec["forbs"]), v, defs)
            try:
                v = model.complete(v, {m: legal_value(rng, defs[m]) for m in defs})
            except Undecided:
                continue
        try:
            hit = model.forbidden(v)
            if model.defects(v) - {"forbidden"}:
                continue
        except Undecided:
            ctx.skip("rounding")
            continue
        try:
            Configuration(cs, values=v)
            err = None
        except ForbiddenValueError as e:
            err = e
        if hit:
            ctx.check(err is not None, "space-refuses", lambda: f"{v} accepted although {hit}")
        else:
            ctx.check(err is None, "space-accepts", lambda: f"{v} refused: {err}")


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 3, 5, 7]), "p_cond": rng.choice([0, 0.5]), "n_forb": rng.choice([2, 4, 8]), "accept": 0.05} | kw))
    ctx.note(spec=spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    watch(ctx, rng, spec, cs)
    watch_space(ctx, rng, spec, cs)
    model = Model(spec)
    for c in cs.sample_configuration(10):
        try:
            hit = model.forbidden(dict(c))
        except Undecided:
            continue
        ctx.check(not hit, "sampled-not-forbidden", lambda: f"{dict(c)}: {hit}")
    ctx.sample(describe(spec))


def case_shared(ctx, rng):
    """Many conjunctions that share parts, over few hyperparameters; all assignments."""
    n = rng.choice([2, 3, 4])
    hps = []
    for i in range(n):
        hps.append(gen_hp(rng, "abcd"[i], ["cat", "ord", "uint"], small=True))
    sets = {d["name"]: HP(d).all_values(20) for d in hps}
    if None in sets.values() or math.prod(len(s) for s in sets.values()) > 3000:
        ctx.skip("too-many")
        return
    conds = []
    if n > 2 and rng.random() < 0.5:
        from rv.spec import gen_cond

        conds = [gen_cond(rng, "c", hps[rng.randrange(2)])]
    cs = ConfigurationSpace(seed=rng.randrange(2**31))
    real = {d["name"]: make_hp(d) for d in hps}
    from rv.build import make_cond

    cs.add(list(real.values()), [make_cond(c, real) for c in conds])
    cur = []
    for _ in range(rng.choice([2, 4, 6])):
        cur += gen_forb_group(rng, hps) if rng.random() < 0.6 else [gen_forb(rng, hps)]
    uniq = []
    for f in cur:
        if canon_forb(f) in [canon_forb(g) for g in uniq]:
            continue
        try:
            m = Model({"hps": hps, "conds": conds, "forbs": [*uniq, f]})
            if m.forbidden(m.default({k: h.default_value for k, h in real.items()})):
                continue
        except Undecided:
            continue
        uniq.append(f)
    spec = {"hps": hps, "conds": conds, "forbs": uniq}
    ctx.note(spec=spec)
    rf = [make_forb(f, real) for f in uniq]
    if rng.random() < 0.5:
        cs.add(rf)
    else:
        for f in rf:
            cs.add(f)
    model = Model(spec)
    try:
        allowed = model.enumerate(sets, 4000)
        everything = Model({"hps": hps, "conds": conds, "forbs": []}).enumerate(sets, 4000)
    except Undecided:
        return
    ok = {fingerprint(model, v) for v in allowed}
    for v in everything:
        try:
            Configuration(cs, values=v)
            got = True
        except ForbiddenValueError:
            got = False
        want = fingerprint(model, v) in ok
        ctx.check(got == want, "space-refuses" if not want else "space-accepts", lambda: f"{v}: accepted {got}, want {want} for {uniq}")
        ctx.state("all", repr(uniq), fingerprint(model, v))
    ctx.event("exhausted")
    # sampling leaves out nothing that is allowed
    if len(ok) <= 25 and len(everything) <= 60 and all(not d.get("weights") for d in hps) and not any(d["k"] == "uint" and d["log"] for d in hps) and not conds:
        seen = {fingerprint(model, dict(c)) for c in cs.sample_configuration(3000)}
        ctx.check(ok <= seen, "sampling-reaches-allowed", lambda: f"never sampled {sorted(ok - seen)[:5]}")
        ctx.check(seen <= ok, "sampled-not-forbidden", lambda: f"sampled {sorted(seen - ok)[:5]}")


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("shared", case_shared, 40, 1500),
    ("random", case_random, 80, 2500),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 150),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
