"""P20: removing priors keeps domain, defaults and constraints."""
from __future__ import annotations

import math

from ConfigSpace import Configuration, ConfigurationSpace

from rv.build import build, make_hp
from rv.extract import canon_hp, canon_of, hp_spec
from rv.hpgen import wide_hp
from rv.model import FLOATS, INTS, HP, Model, Undecided
from rv.mon import check_config, snapshot
from rv.spec import gen_hp, gen_spec, hard, random_values
from rv.checks.p02 import mutate_values
from rv.checks.p19 import behaviour

RULE = "a state is a distinct space or hyperparameter whose prior-free or converted form was compared"
NEEDS = [
    "verdict:contents", "verdict:accepts", "verdict:rejects", "verdict:untouched", "verdict:uniform", "verdict:to-uniform", "verdict:to-integer", "verdict:to-float", "verdict:idempotent",
    "kind:nint", "kind:nfloat", "kind:bint", "kind:bfloat", "kind:weighted", "with:relation", "with:conjunction",
]
ASSUMPTIONS = ["an integer form is only asked for where an integer lies in the range; the meta data of converted hyperparameters is not claimed"]


def uniform(spec):
    hps = []
    for d in spec["hps"]:
        d = dict(d)
        if d["k"] != "const":
            d["def"] = make_hp(d).default_value
        if d["k"] in INTS:
            d["k"] = "uint"
        elif d["k"] in FLOATS:
            d["k"] = "ufloat"
        for key in ("mu", "sigma", "alpha", "beta", "weights"):
            d.pop(key, None)
        hps.append(d)
    return {**spec, "hps": hps}


def near(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def case_space(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([1, 3, 5, 8]), "small": True, "meta": True} | kw))
    ctx.note(spec=spec)
    for d in spec["hps"]:
        ctx.event("kind:" + ("weighted" if d.get("weights") else d["k"]))
    if "'R" in repr(spec["forbs"]):
        ctx.event("with:relation")
    if "'AND'" in repr(spec["conds"]):
        ctx.event("with:conjunction")
    cs = build(spec, seed=rng.randrange(100), rng=rng)
    before = snapshot(cs)
    out = cs.remove_hyperparameter_priors()
    ctx.check(snapshot(cs) == before, "untouched", lambda: f"{before}\n{snapshot(cs)}")
    want = uniform(spec)
    ref = build(want)
    ctx.check(canon_of(out) == canon_of(ref) and out == ref, "contents", lambda: f"got {out}\nwant {ref}")
    for n, hp in out.items():
        d = hp_spec(hp)
        ctx.check(d["k"] in ("uint", "ufloat", "cat", "ord", "const") and not d.get("weights"), "uniform", lambda: f"{hp}")
    model = Model(want)
    defs = {d["name"]: d for d in want["hps"]}
    behaviour(ctx, rng, model, defs, want, out, 12, "without priors")
    behaviour(ctx, rng, model, defs, want, cs, 6, "with priors")
    # values move between the spaces
    try:
        for c in cs.sample_configuration(4):
            v = dict(c)
            if model.valid(v):
                c2 = Configuration(out, values=v)
                ctx.check(dict(c2) == v, "moves", lambda: f"{v} {dict(c2)}")
        for c in out.sample_configuration(4):
            check_config(ctx, model, out, c, "without priors")
    except Undecided:
        ctx.skip("rounding")
    again = out.remove_hyperparameter_priors()
    ctx.check(again == out and canon_of(again) == canon_of(out), "idempotent")
    # independence
    from rv.build import make_hp as mk

    out.add(mk(gen_hp(rng, "later", small=True)))
    ctx.check(snapshot(cs) == before, "untouched", "by adding to the result")
    ctx.state(repr(spec))
    ctx.sample({"space": list(cs), "kinds": [d["k"] for d in spec["hps"]]})


def case_hp(ctx, rng):
    d = wide_hp(rng, "h", ["nint", "nfloat", "bint", "bfloat", "uint", "ufloat", "cat"])
    ctx.note(hp=d)
    hp = make_hp(d)
    before = repr(hp_spec(hp))
    u = hp.to_uniform()
    want = uniform({"hps": [d], "conds": [], "forbs": []})["hps"][0]
    ref = make_hp(want)
    ctx.check(canon_hp(hp_spec(u)) == canon_hp(hp_spec(ref)) and u == ref, "to-uniform", lambda: f"{hp} -> {u}, expected {ref}")
    if d.get("meta") is not None:
        ctx.check(u.meta == d["meta"], "to-uniform-meta")
    real = hp_spec(hp)
    if d["k"] in INTS:
        f = hp.to_float()
        g = hp_spec(f)
        w = {**real, "k": {"uint": "ufloat", "nint": "nfloat", "bint": "bfloat"}[d["k"]]}
        ok = all(near(g.get(k), w.get(k)) for k in ("k", "name", "lo", "hi", "log", "mu", "sigma", "alpha", "beta", "def")) and type(g["lo"]) is not int
        ctx.check(ok, "to-float", lambda: f"{real} -> {g}")
        ctx.check(f.legal_value(hp.lower) and f.legal_value(hp.default_value), "to-float-legal")
    elif d["k"] in FLOATS:
        lo, hi = math.ceil(hp.lower), math.floor(hp.upper)
        if lo >= hi or (d.get("log") and lo < 1):
            ctx.skip("no-integers")
        else:
            i = hp.to_integer()
            g = hp_spec(i)
            w = {**real, "k": {"ufloat": "uint", "nfloat": "nint", "bfloat": "bint"}[d["k"]], "lo": lo, "hi": hi}
            ok = all(near(g.get(k), w.get(k)) for k in ("k", "name", "lo", "hi", "log", "mu", "sigma", "alpha", "beta"))
            ok = ok and abs(g["def"] - min(max(real["def"], lo), hi)) <= 0.5 + 1e-9
            ctx.check(ok, "to-integer", lambda: f"{real} -> {g}")
            ctx.check(all(i.legal_value(x) for x in (lo, hi, i.default_value)), "to-integer-legal")
            for s in i.sample_value(size=5, seed=__import__("numpy").random.RandomState(1)):
                ctx.check(lo <= s <= hi and float(s).is_integer(), "to-integer-sample", lambda: f"{s}")
    ctx.check(repr(hp_spec(hp)) == before, "untouched", lambda: f"{before} {hp_spec(hp)}")
    ctx.state(repr(d))


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [("space", case_space, 50, 1500), ("hard", lambda ctx, rng: case_space(ctx, rng, **hard(rng)), 10, 300), ("hp", case_hp, 120, 4000)]
