"""P33: a copy of a hyperparameter with changes is the changed definition."""
from __future__ import annotations

import numpy as np

from rv.build import make_hp
from rv.extract import canon_hp, hp_spec, rep
from rv.hpgen import some_values, wide_hp
from rv.model import HP
from rv.spec import legal_value

RULE = "a state is a distinct (definition, changed attributes) whose changed copy was compared with the definition written out"
NEEDS = [
    "verdict:equal", "verdict:behaviour", "verdict:original-untouched", "verdict:refused-alike", "verdict:plain-copy", "verdict:chain", "changed:name", "changed:default", "changed:bounds", "changed:log",
    "changed:meta", "changed:prior", "changed:choices", "changed:weights", "changed:value", "refused",
]
ASSUMPTIONS = ["a derived default value is an attribute like any other and is kept by a copy"]

ATTR = {"lo": "lower", "hi": "upper", "log": "log", "mu": "mu", "sigma": "sigma", "alpha": "alpha", "beta": "beta", "choices": "choices", "weights": "weights",
        "seq": "sequence", "value": "value", "def": "default_value", "meta": "meta", "name": "name"}


def change(rng, d):
    """Changed entries of a definition; may be inconsistent."""
    out = {}
    kinds = ["name", "default", "meta"]
    if d["k"] == "cat":
        kinds += ["choices", "weights", "weights"]
    elif d["k"] == "ord":
        kinds += ["choices"]
    elif d["k"] == "const":
        kinds = ["name", "value", "meta"]
    else:
        kinds += ["bounds", "bounds", "log"]
        if d["k"] not in ("ufloat", "uint"):
            kinds += ["prior", "prior"]
    chosen = set(rng.sample(kinds, rng.choice([1, 1, 2, 3]) if len(kinds) >= 3 else 1))
    hp = HP(d)
    for k in sorted(chosen):
        if k == "name":
            out["name"] = rng.choice(["other", "h2", "h:x", "Ω"])
        elif k == "meta":
            out["meta"] = rng.choice([None, {}, {"a": 1}, {"nested": {"b": [1, 2]}}])
        elif k == "default":
            out["def"] = legal_value(rng, d) if rng.random() < 0.8 else ("no such value" if hp.choices is not None else hp.hi * 2 + 1)
        elif k == "choices":
            seq = list(hp.choices)
            key = "choices" if d["k"] == "cat" else "seq"
            if rng.random() < 0.5:
                seq = seq[::-1]
            else:
                seq = [*seq, "a new one" if isinstance(seq[0], str) else 987654]
                if d["k"] == "cat" and d.get("weights") is not None and rng.random() < 0.7:
                    out["weights"] = [*d["weights"], 1]
                    chosen.add("weights")
            out[key] = seq
        elif k == "weights" and "weights" not in out:
            n = len(out.get("choices", hp.choices))
            w = [rng.choice([0.5, 1, 2, 7]) for _ in range(n)]
            out["weights"] = rng.choice([w, w, None, [0] * n, [*w, 1]])
        elif k == "value":
            out["value"] = rng.choice([3, "text", 2.5, False])
        elif k == "bounds":
            span = hp.hi - hp.lo
            lo, hi = rng.choice([(hp.lo, hp.hi + span), (hp.lo, hp.lo + span / 2), (hp.lo + span / 4, hp.hi), (hp.hi, hp.lo)])
            if hp.is_int:
                lo, hi = int(lo), int(hi)
            which = rng.choice([("lo",), ("hi",), ("lo", "hi")])
            if "lo" in which:
                out["lo"] = lo
            if "hi" in which:
                out["hi"] = hi
        elif k == "log":
            out["log"] = not d.get("log")
        elif k == "prior":
            if "alpha" in d:
                out[rng.choice(["alpha", "beta"])] = rng.choice([1, 2, 3.5, 5, -1])
            elif rng.random() < 0.5:
                out["sigma"] = rng.choice([d["sigma"] * 2, d["sigma"] / 2, 0, -1])
            else:
                out["mu"] = legal_value(rng, d)
    return chosen, out


def current(d, hp):
    """The definition with every attribute written out."""
    return dict(d) if d["k"] == "const" else {**d, "def": hp.default_value}


def attempt(f):
    try:
        return f(), None
    except (ValueError, TypeError, ZeroDivisionError, AssertionError) as e:
        return None, e


def look(rng, hp, vals):
    R = np.random.RandomState
    out = [str(hp), hp.size, rep(hp.default_value), repr(hp.meta)]
    for v in vals:
        try:
            out.append((bool(hp.legal_value(v)), float(hp.to_vector(v)) if hp.legal_value(v) else None))
        except (ValueError, TypeError) as e:
            out.append(type(e).__name__)
    out.append([repr(v) for v in hp.sample_value(8, seed=R(3))])
    x = hp.sample_vector(8, seed=R(3))
    out.append(np.asarray(x).tobytes())
    out.append(np.asarray(hp.pdf_vector(x)).tobytes())
    out.append(repr(hp.get_max_density()))
    return repr(out)


def case_copy(ctx, rng):
    d = wide_hp(rng)
    if rng.random() < 0.5:
        d["meta"] = {"note": "text", "list": [1, 2]}
    ctx.note(hp=d)
    hp = make_hp(d)
    vals = first = some_values(rng, d, 6)
    before = look(rng, hp, vals)
    c = hp.copy()
    ctx.check(c is not hp and c == hp and hp == c and look(rng, c, vals) == before, "plain-copy", lambda: f"{hp} {c}")
    cur, steps = hp, []
    d = current(d, hp)
    for _ in range(rng.choice([1, 1, 2, 3])):
        chosen, ch = change(rng, d)
        ctx.note(hp=d, change=ch, steps=steps)
        want, e1 = attempt(lambda: make_hp({**d, **ch}))
        shot = look(rng, cur, vals)
        kw = {ATTR[k]: v for k, v in ch.items()}
        if ch.get("log", d.get("log")) and d["k"] in ("nint", "nfloat") and abs(ch.get("lo", d["lo"]) + ch.get("sigma", d["sigma"]) - 1) < 1e-6:
            ctx.skip("log-normal-zero-spread")
            return
        got, e2 = attempt(lambda: cur.copy(**kw))
        ctx.check((e1 is None) == (e2 is None), "refused-alike", lambda: f"{d} with {ch}: written out {e1!r}, copy {e2!r}")
        ctx.check(look(rng, cur, vals) == shot, "original-untouched", lambda: f"{d} with {ch}")
        for k in chosen:
            ctx.event("changed:" + k)
        ctx.state(repr(d), repr(ch))
        if e1 is not None or e2 is not None:
            ctx.event("refused")
            return
        ctx.check(type(got) is type(want) and got == want and want == got and canon_hp(hp_spec(got)) == canon_hp(hp_spec(want)), "equal", lambda: f"{d} with {ch}: {got} instead of {want}")
        d = {**d, **ch}
        vals = some_values(rng, d, 4) + vals[:3]
        ctx.check(look(rng, got, vals) == look(rng, want, vals), "behaviour", lambda: f"{d}: {look(rng, got, vals)}\n{look(rng, want, vals)}")
        steps.append(sorted(ch))
        cur = got
    if len(steps) > 1:
        ctx.check(look(rng, hp, first) == before, "chain", lambda: f"{hp} after {steps}")
    ctx.sample({"definition": {k: repr(v)[:80] for k, v in d.items()}, "changed": steps})


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [("copy", case_copy, 150, 5000)]
