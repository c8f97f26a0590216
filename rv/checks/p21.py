"""P21: a generated grid is complete, valid and exact."""
from __future__ import annotations

import math
from collections import Counter

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.util import generate_grid

from rv.build import build, make_hp
from rv.model import HP, Model, Undecided, index_in
from rv.mon import check_config, snapshot
from rv.spec import gen_spec, fshape, shape

RULE = "a state is a distinct (space, step numbers) whose whole grid was compared with the enumeration of the model"
NEEDS = [
    "verdict:grid-multiset", "verdict:grid-exact-conditions", "verdict:space-untouched", "verdict:missing-steps-refused", "verdict:repeatable", "with:conditions", "with:clauses",
    "with:nested-conditions", "with:log-int", "with:log-float", "with:float", "with:int", "with:duplicates", "with:pruned", "with:thousands",
]
ASSUMPTIONS = [
    "grids with one step and the empty space are not claimed; in the general cases points that fall on a rounding border or on the threshold of a float condition are skipped",
]
KINDS = ["cat", "cat", "ord", "uint", "ufloat", "const"]


def points(d, n):
    """Evenly spaced values on the declared scale, ends included."""
    lo, hi = d["lo"], d["hi"]
    out = []
    for i in range(n):
        f = i / (n - 1)
        if i == 0:
            v = lo
        elif i == n - 1:
            v = hi
        elif d.get("log"):
            v = math.exp(math.log(lo) + f * (math.log(hi) - math.log(lo)))
        else:
            v = lo + f * (hi - lo)
        if d["k"] == "uint":
            if abs(v - math.floor(v) - 0.5) < 1e-6:
                raise Undecided
            v = round(v)
        out.append(v)
    return out


def key(model, values):
    out = []
    for n in sorted(values):
        hp = model.hps[n]
        v = values[n]
        if hp.choices is not None:
            out.append((n, index_in(v, hp.choices)))
        elif hp.is_int:
            out.append((n, int(v)))
        else:
            # position on the scale, much coarser than rounding and finer than any grid here
            out.append((n, round(hp.vec(float(v)) * 60)))
    return tuple(out)


def case_grid(ctx, rng):
    spec = gen_spec(rng, n=rng.choice([1, 2, 3, 4, 5]), kinds=KINDS, small=True)
    steps, sets, size = {}, {}, 1
    for d in spec["hps"]:
        if d["k"] in ("uint", "ufloat"):
            steps[d["name"]] = rng.choice([2, 2, 3, 4, 5, 6])
            sets[d["name"]] = points(d, steps[d["name"]])
            ctx.event("with:" + ("log-" if d["log"] else "") + ("int" if d["k"] == "uint" else "float"))
            if len(set(sets[d["name"]])) < steps[d["name"]]:
                ctx.event("with:duplicates")
        else:
            sets[d["name"]] = HP(d).all_values()
        size *= len(sets[d["name"]])
    if size > 3000:
        ctx.skip("too-large")
        return
    model = Model(spec)
    model.fuzzy = True
    ctx.note(spec=spec, steps=steps)
    want = Counter(key(model, v) for v in model.enumerate(sets))
    if spec["conds"]:
        ctx.event("with:conditions")
        if any(p in model.cond for c in spec["conds"] for p in _parents(c)):
            ctx.event("with:nested-conditions")
    if spec["forbs"]:
        ctx.event("with:clauses")
        free = Model({**spec, "forbs": []})
        if len(free.enumerate(sets)) > sum(want.values()):
            ctx.event("with:pruned")
    cs = build(spec, seed=1, rng=rng)
    before = snapshot(cs)
    arg = dict(steps)
    if rng.random() < 0.2:
        arg["unrelated name"] = 3
    grid = generate_grid(cs, arg) if steps or rng.random() < 0.5 else generate_grid(cs)
    got = Counter(key(model, dict(c)) for c in grid)
    ctx.check(got == want, "grid-multiset", lambda: f"missing {list((want - got).items())[:3]} extra {list((got - want).items())[:3]} of {sum(want.values())}")
    for c in grid if len(grid) < 30 else rng.sample(grid, 30):
        try:
            check_config(ctx, model, cs, c, "grid")
        except Undecided:
            ctx.skip("rounding")
        for n, v in dict(c).items():
            if n in steps:
                ctx.check(min(abs(v - p) for p in sets[n]) <= 1e-9 * max(1, abs(v)) + 1e-12, "grid-value", lambda: f"{n}={v} not in {sets[n]}")
    ctx.check(snapshot(cs) == before and arg.keys() >= steps.keys() and all(arg[k] == steps[k] for k in steps), "space-untouched")
    again = generate_grid(cs, steps)
    ctx.check([dict(c) for c in again] == [dict(c) for c in grid], "repeatable")
    roots = [n for n in steps if n not in model.cond]
    if roots:
        less = {k: v for k, v in steps.items() if k != rng.choice(roots)}
        if len(less) < len(steps):
            try:
                generate_grid(cs, less)
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, "missing-steps-refused", lambda: f"{less}")
    ctx.state(repr(spec), repr(steps))
    ctx.sample({"conditions": [shape(c) for c in spec["conds"]], "clauses": [fshape(f) for f in spec["forbs"]], "steps": steps, "grid": len(grid)})


def case_big(ctx, rng):
    """Thousands of points."""
    ds = [{"k": "uint", "name": "i", "lo": 0, "hi": 1000, "log": False}, {"k": "cat", "name": "c", "choices": list("pqrst")}, {"k": "ord", "name": "o", "seq": [1, 2, 3]}, {"k": "const", "name": "k", "value": 1}]
    m = rng.choice([101, 251, 501, 501])
    spec = {"hps": ds, "conds": rng.choice([[], [("EQ", "o", "c", "p")], [("NE", "o", "c", "p")]]), "forbs": rng.choice([[], [("AND", [("EQ", "c", "q"), ("EQ", "i", 0)])]])}
    steps = {"i": m}
    ctx.note(spec=spec, steps=steps)
    try:
        sets = {"i": points(ds[0], m), "c": ds[1]["choices"], "o": [1, 2, 3], "k": [1]}
    except Undecided:
        ctx.skip("rounding")
        return
    model = Model(spec)
    want = Counter(key(model, v) for v in model.enumerate(sets, 10**5))
    got = Counter(key(model, dict(c)) for c in generate_grid(build(spec, rng=rng), steps))
    ctx.check(got == want, "grid-multiset", lambda: f"missing {list((want - got).items())[:3]} extra {list((got - want).items())[:3]} of {sum(want.values())}")
    ctx.event("with:thousands", sum(want.values()) > 4096)
    ctx.state("big", repr(spec), m)


def _parents(c):
    return [p for x in c[1] for p in _parents(x)] if c[0] in ("AND", "OR") else [c[2]]


def case_ends(ctx, rng):
    """Conditions and clauses that compare a float exactly with one of its own grid points."""
    hps, conds, forbs, steps, sets = [], [], [], {}, {}
    for i in range(rng.choice([1, 2])):
        log = rng.random() < 0.6
        lo = rng.choice([0.01, 0.1, 0.3, 1e-3, 1e-5, 2.0, 0.7, round(rng.uniform(0.001, 2), rng.choice([2, 4, 7]))])
        if not log:
            lo = rng.choice([lo, -lo, 0.0])
        hi = round(lo + rng.choice([0.005, 0.9, 1.0, 3.7, rng.uniform(0.1, 50)]), 9)
        d = {"k": "ufloat", "name": f"f{i}", "log": log, "lo": lo, "hi": hi}
        n = rng.choice([2, 2, 3, 4, 5])
        pts = [round(v, 13) for v in points(d, n)]
        # configurations keep 13 decimals: the last one must not depend on the way to compute the point
        inner = points(d, n)[1:-1]
        if any(round(v - 16 * math.ulp(abs(v) + abs(lo)), 13) != round(v + 16 * math.ulp(abs(v) + abs(lo)), 13) for v in inner):
            pts = [pts[0], pts[-1]]
            n = 2
        if any(b - a < 1e-6 for a, b in zip(pts, pts[1:])):
            raise Undecided
        hps.append(d)
        steps[d["name"]], sets[d["name"]] = n, pts
        for j in range(rng.choice([1, 1, 2])):
            c = f"c{i}{j}"
            hps.append({"k": "cat", "name": c, "choices": ["u", "v"]})
            sets[c] = ["u", "v"]
            op = rng.choice(["EQ", "NE", "IN", "LT", "GT"])
            at = rng.choice([pts[0], pts[-1], rng.choice(pts)])
            # nothing lies beyond the ends
            at = pts[-1] if op == "LT" and at == pts[0] else pts[0] if op == "GT" and at == pts[-1] else at
            conds.append((op, c, d["name"], rng.sample(pts, rng.randint(1, n)) if op == "IN" else at))
        if rng.random() < 0.4:
            forbs.append(("AND", [("EQ", d["name"], rng.choice(pts)), ("EQ", rng.choice([h["name"] for h in hps if h["k"] == "cat"]), "v")]))
    spec = {"hps": hps, "conds": conds, "forbs": forbs}
    ctx.note(spec=spec, steps=steps)
    model = Model(spec)
    want = Counter(key(model, v) for v in model.enumerate(sets))
    cs = build(spec, seed=1, rng=rng)
    got = Counter(key(model, dict(c)) for c in generate_grid(cs, steps))
    ctx.check(got == want, "grid-exact-conditions", lambda: f"missing {list((want - got).items())[:3]} extra {list((got - want).items())[:3]} of {sum(want.values())}")
    ctx.state(repr(spec), repr(steps))


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [("grid", case_grid, 100, 3000), ("ends", case_ends, 60, 2000), ("big", case_big, 1, 8)]
