"""P27: estimated sizes."""
from __future__ import annotations

import math

from rv.build import build, make_hp
from rv.hpgen import KINDS, wide_hp
from rv.model import FLOATS, HP, Model, Undecided
from rv.mon import snapshot
from rv.spec import gen_spec

RULE = "a state is a distinct space (its domain sizes, conditions and clauses) or hyperparameter whose size was compared"
NEEDS = ["verdict:exact", "verdict:upper-bound", "verdict:infinite", "verdict:hp-size", "verdict:untouched", "verdict:legacy", "with:conditions", "with:clauses", "with:floats", "with:large"]
ASSUMPTIONS = []
FINITE = ["cat", "cat", "ord", "uint", "const", "nint", "bint"]


def case_hp(ctx, rng):
    d = wide_hp(rng)
    ctx.note(hp=d)
    hp = make_hp(d)
    want = HP(d).size
    ctx.check(hp.size == want, "hp-size", lambda: f"{d}: {hp.size} instead of {want}")
    if hasattr(hp, "get_size"):
        ctx.check(hp.get_size() == want, "legacy", lambda: f"{d}")
    ctx.state("hp", d["k"], want)


def case_space(ctx, rng):
    r = rng.random()
    n = rng.choice([1, 2, 3, 4, 6])
    if r < 0.3:
        spec = gen_spec(rng, n=rng.choice([1, 3, 8, 20, 40]), kinds=FINITE, p_cond=0, n_forb=0)
    elif r < 0.4:
        spec = gen_spec(rng, n=n)
    else:
        spec = gen_spec(rng, n=n, kinds=FINITE, small=True)
    ctx.note(spec=spec)
    cs = build(spec, seed=1, rng=rng)
    before = snapshot(cs)
    got = cs.estimate_size()
    ctx.check(snapshot(cs) == before, "untouched")
    sizes = [HP(d).size for d in spec["hps"]]
    if any(d["k"] in FLOATS for d in spec["hps"]):
        ctx.event("with:floats")
        ctx.check(got == math.inf, "infinite", lambda: f"{spec}: {got}")
        ctx.state("space", tuple(sizes))
        return
    prod = math.prod(sizes)
    if not spec["conds"] and not spec["forbs"]:
        if prod > 2**60:
            ctx.event("with:large")
        ctx.check(got == prod, "exact", lambda: f"{sizes}: {got} instead of {prod}")
    else:
        if spec["conds"]:
            ctx.event("with:conditions")
        if spec["forbs"]:
            ctx.event("with:clauses")
        sets = {d["name"]: HP(d).all_values() for d in spec["hps"]}
        if None in sets.values():
            ctx.check(0 <= got <= prod * (1 + 1e-9), "not-above-product", lambda: f"{got} > {prod}")
            ctx.skip("too-large")
            return
        try:
            real = len(Model(spec).enumerate(sets, limit=3000))
        except (OverflowError, Undecided):
            ctx.skip("too-large")
            return
        ctx.check(got >= real - 1e-6, "upper-bound", lambda: f"{got} < {real}")
        ctx.check(got <= prod * (1 + 1e-9), "not-above-product", lambda: f"{got} > {prod}")
    ctx.state("space", tuple(sizes), repr(spec["conds"]), repr(spec["forbs"]))
    ctx.sample({"sizes": sizes, "conditions": len(spec["conds"]), "clauses": len(spec["forbs"]), "estimate": got})


def case_exact(ctx, rng):
    """Sizes beyond the precision of floats are exact whole numbers."""
    hps = []
    for i in range(rng.choice([1, 2, 3, 5])):
        lo = rng.choice([0, 1, -7, 10**6])
        hps.append({"k": "uint", "name": f"h{i}", "lo": lo, "hi": lo + rng.choice([2, 10**6, 10**7 + 1, 2**31 - 1, 2**40 + 6, 10**15]), "log": False})
    ctx.note(spec=hps)
    cs = build({"hps": hps, "conds": [], "forbs": []}, rng=rng)
    for d in hps:
        want = d["hi"] - d["lo"] + 1
        got = cs[d["name"]].size
        ctx.check(got == want and got - want == 0 and isinstance(got, (int,)), "hp-size", lambda: f"{d}: {got!r} instead of {want}")
    prod = math.prod(d["hi"] - d["lo"] + 1 for d in hps)
    got = cs.estimate_size()
    ctx.check(got == prod, "exact", lambda: f"{hps}: {got} instead of {prod}")
    ctx.state("exact", prod)


QUICK_TIMES = 6  # the quick tier runs the first numbers below this many times over
CASES = [("hp", case_hp, 150, 4000), ("space", case_space, 80, 2500), ("exact", case_exact, 20, 400)]
