"""P24: work grows moderately with the size of the space.

Work is measured as the number of interpreter events (function starts, calls, jumps and
lines) while an operation runs. It is the same on every run and machine, unlike time.
"""
from __future__ import annotations

import math
import sys
import tracemalloc

import ConfigSpace as C
import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace.util import deactivate_inactive_hyperparameters, get_one_exchange_neighbourhood

from rv.model import Undecided

RULE = "a state is a distinct (family, parameters, operation, size) whose work was counted"
OPS = ["build", "build-one-by-one", "build-backwards", "default", "create", "create-vector", "validate", "change", "sample", "sample-many", "neighbors", "serialize", "read-back", "deactivate", "equal"]
NEEDS = ["verdict:growth", "verdict:samples-growth", "verdict:usable", "verdict:memory"] + ["op:" + o for o in OPS] + [
    "family:chain", "family:layers", "family:wide", "family:tree", "family:diamonds", "family:clauses", "family:shared", "family:in-clauses", "family:nested", "family:relations", "family:parents", "family:nested-clauses",
]
ASSUMPTIONS = [
    "work is counted in interpreter events, so the inside of one numpy call counts as one; memory is bounded separately",
    "doubling a size may multiply the work by at most 2**2.8 (2**3.2 when building, 2**3.8 when building one by one), four times as many samples by at most 8",
]
CAP = 40_000_000
MEM_CAP = 256 << 20
DEGREE = {"build": 3.2, "build-one-by-one": 3.8, "build-backwards": 3.2}
TOOL = 3


class TooMuch(BaseException):
    pass


def work(fn):
    """Number of interpreter events while `fn` runs."""
    mon = sys.monitoring
    ev = mon.events
    n = 0

    def cb(*_):
        nonlocal n
        n += 1
        if n > CAP:
            mon.set_events(TOOL, 0)
            raise TooMuch

    mon.use_tool_id(TOOL, "rv-work")
    try:
        for e in (ev.PY_START, ev.CALL, ev.JUMP, ev.LINE):
            mon.register_callback(TOOL, e, cb)
        mon.set_events(TOOL, ev.PY_START | ev.CALL | ev.JUMP | ev.LINE)
        try:
            out = fn()
        except TooMuch:
            return math.inf, None
        finally:
            mon.set_events(TOOL, 0)
    finally:
        mon.free_tool_id(TOOL)
    return n, out


def cat(name, k=2):
    return C.CategoricalHyperparameter(name, [str(i) for i in range(k)], default_value="0")


def link(kind, child, parent):
    """A condition which holds for the value 0 of the parent."""
    if kind == "EQ":
        return C.EqualsCondition(child, parent, "0")
    if kind == "NE":
        return C.NotEqualsCondition(child, parent, "1")
    return C.InCondition(child, parent, ["0", "2"])


def chain(rng, p, n):
    h = [cat(f"c{i:05d}", 3) for i in range(n)]
    return h, [link(p["kind"], h[i + 1], h[i]) for i in range(n - 1)], []


def layers(rng, p, n):
    w, conj = p["width"], p["conj"]
    h = [[cat(f"l{i:04d}_{j}", 3) for j in range(w)] for i in range(n)]
    conds = [conj(*[link(p["kind"], c, x) for x in h[i]]) for i in range(n - 1) for c in h[i + 1]]
    return [x for row in h for x in row], conds, []


def wide(rng, p, n):
    h = [cat(f"w{i:05d}", 3) for i in range(n)]
    return h, [link(p["kind"], x, h[0]) for x in h[1:]], []


def tree(rng, p, n):
    h = [cat(f"t{i:05d}", 3) for i in range(n)]
    return h, [link(p["kind"], h[i], h[(i - 1) // 2]) for i in range(1, n)], []


def diamonds(rng, p, n):
    h = [cat("d0", 3)]
    conds = []
    for i in range(n):
        a, b, c = (cat(f"d{i:04d}{s}", 3) for s in "abc")
        top = h[-1]
        conds += [link(p["kind"], a, top), link("EQ", b, top), p["conj"](link("EQ", c, a), link(p["kind"], c, b))]
        h += [a, b, c]
    return h, conds, []


def parents(rng, p, n):
    h = [cat(f"q{i:04d}", 3) for i in range(n + 1)]
    return h, [p["conj"](*[link(p["kind"], h[-1], x) for x in h[:-1]])] if n > 1 else [], []


def nested(rng, p, n):
    h = [cat(f"n{i:04d}", 3) for i in range(n + 2)]
    c = link("EQ", h[-1], h[0])
    for i in range(1, n + 1):
        c = (C.AndConjunction if i % 2 else C.OrConjunction)(c, link("EQ", h[-1], h[i]))
    return h, [c], []


def nested_clauses(rng, p, n):
    h = [cat(f"m{i:04d}", 3) for i in range(n + 2)]
    f = C.ForbiddenEqualsClause(h[0], "1")
    for i in range(1, n + 1):
        f = C.ForbiddenAndConjunction(f, C.ForbiddenEqualsClause(h[i], "1"))
    return h, [], [f]


def clauses(rng, p, n):
    h = [cat(f"k{i}", n + 2) for i in range(3)]
    return h, [], [C.ForbiddenAndConjunction(*[C.ForbiddenEqualsClause(h[j], "1") for j in (0, 1)], C.ForbiddenEqualsClause(h[2], str(i + 1))) for i in range(n)]


def shared(rng, p, n):
    h = [cat(f"s{i:04d}", 3) for i in range(n + 1)]
    return h, [], [C.ForbiddenAndConjunction(*[C.ForbiddenEqualsClause(x, "1") for x in h[: i + 2]]) for i in range(1, n)]


def in_clauses(rng, p, n):
    h = [cat(f"i{i:04d}", 4) for i in range(n + 1)]
    a = C.ForbiddenAndConjunction(*[C.ForbiddenInClause(x, ["1", "2", "3"]) for x in h])
    b = C.ForbiddenAndConjunction(*[C.ForbiddenInClause(x, ["1", "2"]) for x in h[1:]], C.ForbiddenEqualsClause(h[0], "3"))
    return h, [], [a, b]


def relations(rng, p, n):
    h = [C.UniformIntegerHyperparameter(f"r{i:04d}", 0, 10**6, default_value=5) for i in range(n + 1)]
    return h, [], [C.ForbiddenAndConjunction(C.ForbiddenEqualsRelation(h[i], h[i + 1]), C.ForbiddenEqualsClause(h[0], 3)) for i in range(n)]


FAMILIES = {
    "chain": (chain, (15, 30, 60), (24, 48, 96)),
    "layers": (layers, (4, 8, 16), (6, 12, 24)),
    "wide": (wide, (15, 30, 60), (30, 60, 120)),
    "tree": (tree, (15, 30, 60), (25, 50, 100)),
    "diamonds": (diamonds, (4, 8, 16), (8, 16, 32)),
    "parents": (parents, (6, 12, 24), (10, 20, 40)),
    "nested": (nested, (5, 10, 20), (8, 16, 32)),
    "nested-clauses": (nested_clauses, (5, 10, 20), (8, 16, 32)),
    "clauses": (clauses, (15, 30, 60), (40, 80, 160)),
    "shared": (shared, (6, 12, 24), (10, 20, 40)),
    "in-clauses": (in_clauses, (4, 8, 16), (8, 16, 32)),
    "relations": (relations, (6, 12, 24), (10, 20, 40)),
}


def operations(make):
    """Run all operations on one size, returns operation -> work."""
    out = {}

    def op(name, fn):
        out[name], res = work(fn)
        if out[name] == math.inf:
            raise TooMuch(name)
        return res

    cs = ConfigurationSpace(seed=1)
    hps, conds, forbs = make()
    op("build", lambda: cs.add(hps, conds, forbs))
    one = ConfigurationSpace(seed=1)
    parts = make()

    def singly():
        one.add(parts[0])
        for x in parts[1] + parts[2]:
            one.add(x)

    op("build-one-by-one", singly)
    back = make()
    op("build-backwards", lambda: ConfigurationSpace(seed=1).add(back[0][::-1], back[1][::-1], back[2][::-1]))
    cfg = op("default", cs.get_default_configuration)
    values, vector = dict(cfg), cfg.get_array().copy()
    op("create", lambda: Configuration(cs, values=values))
    op("create-vector", lambda: Configuration(cs, vector=vector))
    op("validate", cfg.check_valid_configuration)
    root = next(n for n in cs if not cs.parents_of[n])

    def change():
        c = Configuration(cs, vector=vector.copy())
        old = c[root]
        c[root] = 7 if isinstance(cs[root], C.UniformIntegerHyperparameter) else "2"
        c[root] = old

    op("change", change)
    op("sample", lambda: cs.sample_configuration())
    for k in (8, 32, 128):
        res = op(f"sample-many:{k}", lambda: cs.sample_configuration(k))
        assert len(res) == k
    op("neighbors", lambda: [c for _, c in zip(range(20), get_one_exchange_neighbourhood(cfg, 1))])
    ser = op("serialize", cs.to_serialized_dict)
    back = op("read-back", lambda: ConfigurationSpace.from_serialized_dict(ser))
    op("deactivate", lambda: deactivate_inactive_hyperparameters(dict(values), cs))
    same = op("equal", lambda: back == cs)
    return out, same


def case_family(ctx, rng):
    name = list(FAMILIES)[(ctx.shard + ctx.cases) % len(FAMILIES)]
    fn, quick, thorough = FAMILIES[name]
    sizes = quick if ctx.tier == "quick" else thorough
    p = {"kind": rng.choice(["EQ", "NE", "IN"]), "width": rng.choice([2, 3, 4]), "conj": rng.choice([C.AndConjunction, C.OrConjunction])}
    ctx.event("family:" + name)
    label = (name, p["kind"], p["width"], p["conj"].__name__)
    ctx.note(family=label, sizes=sizes)
    got = []
    for n in sizes:
        try:
            w, same = operations(lambda: fn(rng, p, n))
        except TooMuch as e:
            ctx.check(False, "usable", lambda: f"{label} size {n}: {e} takes more than {CAP} interpreter events")
            return
        ctx.check(same, "usable", lambda: f"{label} size {n}: not equal after reading back")
        for o in OPS:
            if o in w or o == "sample-many":
                ctx.event("op:" + o)
        ctx.state(label, n, tuple(sorted(w.items())))
        got.append(w)
    for o in got[0]:
        for a, b, n in zip(got, got[1:], sizes[1:]):
            # sampling rejects forbidden ones, the share of which is bounded in all families
            ctx.check(b[o] <= max(a[o], 400) * 2 ** DEGREE.get(o, 2.8), "growth", lambda: f"{label} {o}: {[w[o] for w in got]} events for sizes {sizes}")
    for w, n in zip(got, sizes):
        ctx.check(w["sample-many:128"] <= max(w["sample-many:32"], 400) * 8 and w["sample-many:32"] <= max(w["sample-many:8"], 400) * 8, "samples-growth",
                  lambda: f"{label} size {n}: {[w[f'sample-many:{k}'] for k in (8, 32, 128)]} events for 8, 32, 128 samples")
    # memory
    cs = ConfigurationSpace(seed=1)
    cs.add(*fn(rng, p, sizes[-1]))
    tracemalloc.start()
    try:
        cs.sample_configuration(64)
        cs.get_default_configuration()
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    ctx.check(peak <= MEM_CAP, "memory", lambda: f"{label}: {peak} bytes for 64 samples")
    ctx.sample({"family": label, "sizes": sizes, "work": {o: [w[o] for w in got] for o in got[0]}})


CASES = [("family", case_family, 6, 22)]
