"""P28: fixing types restores the typed configuration."""
from __future__ import annotations

from ConfigSpace import Configuration
from ConfigSpace.util import fix_types

from rv.build import build
from rv.model import HP, Model, same
from rv.mon import snapshot
from rv.spec import gen_spec

RULE = "a state is a distinct (space, configuration) restored from text"
NEEDS = [
    "verdict:restored", "verdict:typed-kept", "verdict:refused-none", "verdict:refused-several", "verdict:valid-again", "verdict:space-untouched",
    "kind:cat", "kind:ord", "kind:const", "kind:uint", "kind:ufloat", "kind:nint", "kind:nfloat", "kind:bint", "kind:bfloat", "number:large", "number:exact", "type:bool", "type:none", "partial",
]
ASSUMPTIONS = ["choices of one hyperparameter with the same text cannot be told apart and are only required to be refused"]


def text(v):
    return str(v.item() if hasattr(v, "item") else v)


def ambiguous(d):
    ch = HP(d).choices
    if ch is None:
        return False
    t = [text(c) for c in ch]
    return len(set(t)) < len(t)


def tname(v):
    v = v.item() if hasattr(v, "item") else v
    return type(v).__name__


def case_fix(ctx, rng):
    spec = gen_spec(rng, small=rng.random() < 0.5)
    if rng.random() < 0.3:
        spec["hps"].append({"k": "cat", "name": "plain types", "choices": rng.sample([None, True, False, "x", 1.5, -3, "1e3", 10**6], 4)})
    ctx.note(spec=spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=rng.randrange(1000), rng=rng)
    before = snapshot(cs)
    for c in cs.sample_configuration(4):
        v = dict(c)
        unclear = {n for n in v if ambiguous(defs[n])}
        good = {n: x for n, x in v.items() if n not in unclear}
        as_text = {n: text(x) for n, x in good.items()}
        if rng.random() < 0.3 and len(good) > 1:
            # some already typed
            ctx.event("partial")
            for n in rng.sample(sorted(good), len(good) // 2):
                as_text[n] = good[n]
        out = fix_types(dict(as_text), cs)
        for n in good:
            k = defs[n]["k"]
            ctx.event("kind:" + k)
            ctx.event("type:" + {"bool": "bool", "NoneType": "none"}.get(tname(good[n]), "other"))
            ctx.check(n in out and same(out[n], good[n]) and tname(out[n]) == tname(good[n]), "restored", lambda: f"{defs[n]}: {as_text[n]!r} gave {out.get(n)!r} instead of {good[n]!r}")
        ctx.check(out.keys() == good.keys(), "restored", lambda: f"{out.keys()} {good.keys()}")
        typed = fix_types(dict(good), cs)
        ctx.check(all(same(typed[n], good[n]) and tname(typed[n]) == tname(good[n]) for n in good) and typed.keys() == good.keys(), "typed-kept", lambda: f"{good} {typed}")
        if not unclear:
            c2 = Configuration(cs, values=out)
            ctx.check(c2 == c, "valid-again", lambda: f"{v} {dict(c2)}")
        for n in unclear:
            x = v[n]
            t = text(x)
            if sum(text(ch) == t for ch in HP(defs[n]).choices) > 1:
                refused(ctx, {n: t}, cs, "refused-several")
        for n in rng.sample(sorted(v), min(2, len(v))):
            if defs[n]["k"] in ("cat", "ord", "const"):
                refused(ctx, {n: text(v[n]) + "?"}, cs, "refused-none")
            else:
                refused(ctx, {n: "not a number"}, cs, "refused-none")
        ctx.state(repr(sorted(as_text.items(), key=lambda kv: kv[0])), repr(spec["hps"]))
    ctx.check(snapshot(cs) == before, "space-untouched")
    ctx.sample({"text": {n: str(t) for n, t in as_text.items()}})


def refused(ctx, cfg, cs, kind):
    try:
        out = fix_types(dict(cfg), cs)
        ok = False
    except ValueError:
        out, ok = None, True
    ctx.check(ok, kind, lambda: f"{cfg} gave {out}")


def case_several(ctx, rng):
    a, b = rng.choice([(1, "1"), (True, "True"), (None, "None"), (2.5, "2.5")])
    choices = [a, b, "other", 7]
    rng.shuffle(choices)
    k = rng.choice(["cat", "ord"])
    d = {"k": k, "name": "c", "choices" if k == "cat" else "seq": choices}
    cs = build({"hps": [d], "conds": [], "forbs": []})
    refused(ctx, {"c": text(a)}, cs, "refused-several")
    out = fix_types({"c": "7"}, cs)
    ctx.check(same(out["c"], 7) and tname(out["c"]) == "int", "restored", lambda: f"{out}")


def case_numbers(ctx, rng):
    """Numbers keep every digit of their text."""
    lo, hi = rng.choice([(0, 2**60), (-(2**61), 2**61), (1, 10**17), (-5, 10**6), (10**15, 10**15 + 99)])
    cs = build({"hps": [{"k": "uint", "name": "i", "lo": lo, "hi": hi, "log": False}, {"k": "ufloat", "name": "f", "lo": -1e9, "hi": 1e9, "log": False}], "conds": [], "forbs": []})
    for _ in range(20):
        i = rng.choice([rng.randint(lo, hi), hi, lo, hi - 1, lo + 1])
        f = rng.choice([rng.uniform(-1e9, 1e9), rng.uniform(-1, 1), 10.0 ** rng.randint(-300, 8), 0.1 + 0.2, -0.0, float(rng.randint(-9, 9))])
        out = fix_types({"i": str(i), "f": repr(f)}, cs)
        ctx.event("number:large" if abs(i) > 2**53 else "number:small")
        ctx.check(type(out["i"]) is int and out["i"] == i, "restored", lambda: f"{i} gave {out['i']!r}")
        ctx.event("number:exact")
        ctx.check(type(out["f"]) is float and repr(out["f"]) == repr(f), "restored", lambda: f"{f!r} gave {out['f']!r}")
        out = fix_types({"i": i, "f": f}, cs)
        ctx.check(type(out["i"]) is int and out["i"] == i and repr(out["f"]) == repr(f), "typed-kept", lambda: f"{i} {f!r} gave {out}")
        ctx.state("numbers", i, f)


LIKE = [["a", "a ", " a", "A", "aa"], ["1", "1.0", "01", "+1", " 1"], [1, "1.0", "01", 10, "1e0"], [2.5, "2.50", "+2.5", "2.5 "], [True, "true", "TRUE", "1"], [None, "none", "null", ""], ["", " ", "\t", "x"]]


def case_like(ctx, rng):
    """Only the exact text of a choice stands for it."""
    pool = rng.choice(LIKE)
    ch = rng.sample(pool, rng.randint(2, len(pool)))
    k = rng.choice(["cat", "ord"])
    d = {"k": k, "name": "c", "choices" if k == "cat" else "seq": ch}
    ctx.note(spec=d)
    cs = build({"hps": [d], "conds": [], "forbs": []})
    texts = [text(c) for c in ch]
    for c in ch:
        out = fix_types({"c": text(c)}, cs)
        ctx.check(same(out["c"], c) and tname(out["c"]) == tname(c), "restored", lambda: f"{text(c)!r} gave {out} for {ch}")
    for t in [text(c) for c in pool] + [texts[0] + " ", " " + texts[0], texts[0].upper() + ".", texts[0] + "\n"]:
        if t not in texts:
            refused(ctx, {"c": t}, cs, "refused-none")
    ctx.state("like", repr(d))


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [("numbers", case_numbers, 20, 300), ("fix", case_fix, 60, 2500), ("several", case_several, 5, 40), ("like", case_like, 30, 300)]
