"""P38: a hyperparameter turned into a float, integer or uniform one keeps range, scale and default."""
from __future__ import annotations

import math

from rv.build import make_hp
from rv.checks.p33 import attempt, look
from rv.extract import canon_hp, hp_spec
from rv.hpgen import some_values, wide_hp
from rv.model import HP
from rv.spec import gen_hp, legal_value, nice

RULE = "a state is a distinct (definition, conversion) whose result was compared with the definition written out"
NEEDS = [
    "to:float", "to:integer", "to:uniform", "refused", "verdict:equal", "verdict:behaviour", "verdict:original-untouched", "verdict:refused", "verdict:default", "verdict:back",
    "from:uint", "from:nint", "from:bint", "from:ufloat", "from:nfloat", "from:bfloat", "default-outside", "scale:log", "scale:linear",
]
ASSUMPTIONS = ["meta data is documented to be dropped by some of the conversions and not claimed", "a default halfway between two whole numbers may go to either"]

PARTNER = {"uint": "ufloat", "nint": "nfloat", "bint": "bfloat", "ufloat": "uint", "nfloat": "nint", "bfloat": "bint"}


def edge_float(rng):
    """A float next to whole numbers: few of them inside, the default between the outermost and the bound."""
    k = rng.choice(["ufloat", "nfloat", "bfloat"])
    lo = rng.choice([0.2, 0.6, 1.4, 1.9, -3.7, -0.4, 7.0, 12.3, 2.5])
    hi = nice(lo + rng.choice([0.3, 0.7, 1.2, 2.0, 2.9, 5.5, 40.0]), 9)
    d = {"k": k, "name": "h", "lo": lo, "hi": hi, "log": lo > 0 and rng.random() < 0.4}
    if k == "nfloat":
        d.update(mu=nice(rng.uniform(lo, hi), 6), sigma=nice(rng.choice([0.3, 1.0, 2.5]) * (hi - lo), 6))
    elif k == "bfloat":
        d.update(alpha=rng.choice([1, 2, 3.25]), beta=rng.choice([1, 1.75, 4]))
    r = rng.random()
    if r < 0.3:
        d["def"] = lo
    elif r < 0.6:
        d["def"] = hi
    elif r < 0.8:
        d["def"] = legal_value(rng, d)
    return d


def no_spread(d):
    return d["k"] in ("nint", "nfloat") and d.get("log") and abs(d["lo"] + d["sigma"] - 1) < 1e-6


def compare(ctx, rng, what, d, got, want_d, keep_meta):
    if no_spread(want_d):
        ctx.skip("log-normal-zero-spread")
        return
    if not keep_meta:
        want_d = {**want_d, "meta": got.meta}
    want = make_hp(want_d)
    ctx.check(
        type(got) is type(want) and got == want and want == got and canon_hp(hp_spec(got)) == canon_hp(hp_spec(want)) and got.meta == want.meta,
        "equal", lambda: f"{what} of {d}: {got} instead of {want}",
    )
    if want.size <= 20000 or want_d["k"] in ("uint", "ufloat", "nfloat", "bfloat"):
        vals = some_values(rng, want_d, 6)
        ctx.check(look(rng, got, vals) == look(rng, want, vals), "behaviour", lambda: f"{what} of {d}: {got} against {want}")


def case_convert(ctx, rng):
    r = rng.random()
    kinds = list(PARTNER)
    d = edge_float(rng) if r < 0.5 else wide_hp(rng, kinds=kinds) if r < 0.75 else gen_hp(rng, "h", kinds=kinds)
    d = dict(d)
    if "alpha" in d and rng.random() < 0.4:
        d["alpha"], d["beta"] = round(1 + rng.random() * 4, 9), round(1 + rng.random() * 4, 9)
    if rng.random() < 0.4:
        d["meta"] = {"note": "text"}
    ctx.note(hp=d)
    if no_spread(d):
        ctx.skip("log-normal-zero-spread")
        return
    hp = make_hp(d)
    ref = HP(d)
    vals = some_values(rng, d, 5)
    quick = hp.size <= 20000 or math.isinf(hp.size) or d["k"] == "uint"
    before = look(rng, hp, vals) if quick else str(hp)
    full = {**d, "def": hp.default_value}
    ctx.event("from:" + d["k"])
    ctx.event("scale:log" if d.get("log") else "scale:linear")

    # without the prior
    ctx.event("to:uniform")
    ctx.state(repr(sorted(full.items(), key=str)), "uniform")
    u = {k: v for k, v in full.items() if k not in ("mu", "sigma", "alpha", "beta")}
    u["k"] = "uint" if ref.is_int else "ufloat"
    compare(ctx, rng, "uniform", d, hp.to_uniform(), u, True)

    ctx.state(repr(sorted(full.items(), key=str)), "partner")
    if ref.is_int:
        ctx.event("to:float")
        got = hp.to_float()
        want = {**full, "k": PARTNER[d["k"]], "lo": float(d["lo"]), "hi": float(d["hi"]), "def": float(hp.default_value)}
        compare(ctx, rng, "float", d, got, want, False)
        back = got.to_integer()
        ctx.check((back.lower, back.upper, back.default_value, back.log) == (hp.lower, hp.upper, hp.default_value, hp.log) and type(back) is type(hp), "back", lambda: f"{hp} became {got} and {back}")
    else:
        ctx.event("to:integer")
        lo, hi = math.ceil(d["lo"]), math.floor(d["hi"])
        if lo >= hi:
            ctx.event("refused")
            got, e = attempt(hp.to_integer)
            ctx.check(isinstance(e, ValueError), "refused", lambda: f"{hp} has no two whole numbers but gave {got}")
        elif no_spread({**d, "lo": lo}):
            ctx.skip("log-normal-zero-spread")
        else:
            got = hp.to_integer()
            v = hp.default_value
            if not lo <= round(v) <= hi:
                ctx.event("default-outside")
            near = {min(max(math.floor(v + 0.5), lo), hi), min(max(math.ceil(v - 0.5), lo), hi)}
            ctx.check(got.default_value in near, "default", lambda: f"{v} became {got.default_value}, expected {near}")
            compare(ctx, rng, "integer", d, got, {**full, "k": PARTNER[d["k"]], "lo": lo, "hi": hi, "def": got.default_value}, False)
    ctx.check((look(rng, hp, vals) if quick else str(hp)) == before, "original-untouched", lambda: f"{d}")
    ctx.sample({"definition": {k: repr(v)[:60] for k, v in d.items()}})


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [("convert", case_convert, 120, 4000)]
