"""P17: dictionary, JSON and YAML round trips preserve the space."""
from __future__ import annotations

import copy
import io
import json
import os
import sys
import tempfile
from pathlib import Path

from ConfigSpace import ConfigurationSpace, UniformIntegerHyperparameter

from rv.build import build
from rv.checks.p15 import judge_reports
from rv.extract import canon_of, hp_spec
from rv.mon import plain, snapshot
from rv.spec import describe, gen_spec, hard, large

try:
    import yaml
except ImportError:
    _p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(_p, "yaml")):
        sys.path.append(_p)
    try:
        import yaml
    except ImportError:
        yaml = None

RULE = "a state is a distinct (space, kind of round trip) whose result was judged"
NEEDS = [
    "verdict:equal", "verdict:content", "verdict:types", "verdict:same-samples", "verdict:space-untouched", "verdict:dict-untouched", "verdict:stable",
    "trip:dict", "trip:json-text", "trip:json-file", "trip:json-buffer", "verdict:independent", "verdict:meta", "trip:legacy", "verdict:big-integers", "space:condition", "space:forbidden",
]
ASSUMPTIONS = ["choices, constants and meta data are JSON values (no tuples)"]


def typed(v):
    v = plain(v)
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def typed_hp(hp):
    d = hp_spec(hp)
    return {k: typed(v) for k, v in d.items() if k in ("choices", "seq", "value", "def", "lo", "hi")}


def trips(ctx, rng, cs):
    """(name, result) of all kinds of round trips; files live in a scratch directory."""
    d = cs.to_serialized_dict()
    yield "dict", d, ConfigurationSpace.from_serialized_dict(d)
    text = json.dumps(d)
    yield "json-text", None, ConfigurationSpace.from_serialized_dict(json.loads(text))
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, "s.json")
        p = Path(p) if rng.random() < 0.5 else p
        cs.to_json(p, **rng.choice([{}, {"indent": 2}, {"sort_keys": True}]))
        yield "json-file", None, ConfigurationSpace.from_json(p)
        b = io.StringIO()
        cs.to_json(b)
        b.seek(0)
        yield "json-buffer", None, ConfigurationSpace.from_json(b)
        if yaml is None:
            ctx.skip("no-yaml")
            return
        p = os.path.join(tmp, "s.yaml")
        cs.to_yaml(p)
        yield "yaml-file", None, ConfigurationSpace.from_yaml(Path(p) if rng.random() < 0.5 else p)
        b = io.StringIO()
        cs.to_yaml(b)
        b.seek(0)
        yield "yaml-buffer", None, ConfigurationSpace.from_yaml(b)


def judge(ctx, rng, spec, cs, got, how):
    ctx.event("trip:" + how)
    ctx.state(repr(spec), how)
    ctx.check(got == cs and cs == got, "equal", lambda: f"{how}: {got}\n{cs}")
    ctx.check(canon_of(got) == canon_of(cs) and list(got) == list(cs), "content", lambda: f"{how}: {canon_of(got)}\n{canon_of(cs)}")
    ctx.check(got.name == cs.name, "content", lambda: f"{how}: name {got.name}")
    bad = [(typed_hp(got[n]), typed_hp(cs[n])) for n in cs if typed_hp(got[n]) != typed_hp(cs[n])]
    ctx.check(not bad, "types", lambda: f"{how}: {bad}")
    bad = [(n, got[n].meta, cs[n].meta) for n in cs if got[n].meta != cs[n].meta]
    ctx.check(not bad and got.meta == cs.meta, "meta", lambda: f"{how}: {bad} {got.meta} {cs.meta}")
    judge_reports(ctx, spec, got)
    ctx.check(dict(got.get_default_configuration()) == dict(cs.get_default_configuration()), "content", f"{how}: default")
    s = rng.randrange(2**31)
    a, b = copy.deepcopy(cs), got
    a.seed(s)
    b.seed(s)
    x = [c.get_array().tobytes() for c in a.sample_configuration(5)]
    y = [c.get_array().tobytes() for c in b.sample_configuration(5)]
    ctx.check(x == y, "same-samples", lambda: f"{how}: {spec}")


def scribble(obj, rng):
    """Modify everything that can be modified in a dictionary."""
    if isinstance(obj, dict):
        for v in list(obj.values()):
            scribble(v, rng)
        obj["scribble"] = 1
    elif isinstance(obj, list):
        for v in obj:
            scribble(v, rng)
        obj.append("scribble")
        obj.reverse()


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, meta=True, **kw)
    ctx.note(spec=spec)
    if spec["conds"]:
        ctx.event("space:condition")
    if spec["forbs"]:
        ctx.event("space:forbidden")
    cs = build(spec, seed=1, name=rng.choice([None, "space", "ü name"]), rng=rng)
    before = snapshot(cs)
    first = None
    for how, d, got in trips(ctx, rng, cs):
        judge(ctx, rng, spec, cs, got, how)
        if d is not None:
            first = d
    ctx.check(snapshot(cs) == before, "space-untouched", lambda: f"{before}\n{snapshot(cs)}")

    # reading does not modify the dictionary, which can be read again
    keep = copy.deepcopy(first)
    a = ConfigurationSpace.from_serialized_dict(first)
    ctx.check(first == keep and repr(first) == repr(keep), "dict-untouched", lambda: f"{keep}\n{first}")
    b = ConfigurationSpace.from_serialized_dict(first)
    ctx.check(a == b == cs, "equal", "read twice")
    # any number of round trips gives the same text
    t = json.dumps(first, sort_keys=True)
    ctx.check(json.dumps(a.to_serialized_dict(), sort_keys=True) == t, "stable", lambda: f"{t}\n{json.dumps(a.to_serialized_dict(), sort_keys=True)}")
    # what is done with the dictionary or the copies does not reach the space
    sa = snapshot(a)
    scribble(first, rng)
    ctx.check(snapshot(cs) == before and snapshot(a) == sa, "independent", lambda: f"{before}\n{snapshot(cs)}\n{snapshot(a)}")
    ctx.check(all(cs[n].meta == (next(d for d in spec["hps"] if d["name"] == n).get("meta") or cs[n].meta) for n in cs), "independent", "meta")
    ctx.sample(describe(spec))


def case_meta(ctx, rng):
    """Meta data of the space itself."""
    meta = rng.choice([None, {"a": 1}, {"a": {"b": [1, 2, None]}, "c": "d"}])
    cs = ConfigurationSpace(name="n", seed=1, meta=meta, space={"x": (0, 10), "y": ["a", "b"]})
    got = ConfigurationSpace.from_serialized_dict(json.loads(json.dumps(cs.to_serialized_dict())))
    ctx.check(got.meta == cs.meta, "meta", lambda: f"{cs.meta} -> {got.meta}")
    ctx.check(got == cs, "equal", lambda: f"{cs} {cs.meta} -> {got} {got.meta}")


def case_legacy(ctx, rng):
    """Fields of older formats: `default`, `q`."""
    spec = gen_spec(rng, small=True)
    ctx.note(spec=spec)
    cs = build(spec, seed=1)
    d = cs.to_serialized_dict()
    for h in d["hyperparameters"]:
        # an older null default may as well mean that none was given
        if h.get("default_value") is not None and rng.random() < 0.7:
            h["default"] = h.pop("default_value")
        if h["type"] in ("uniform_float", "uniform_int") and rng.random() < 0.5:
            h["q"] = None
        if rng.random() < 0.3:
            h.pop("meta", None)
    keep = copy.deepcopy(d)
    got = ConfigurationSpace.from_serialized_dict(d)
    ctx.event("trip:legacy")
    ctx.check(d == keep, "dict-untouched", lambda: f"{keep}\n{d}")
    want = canon_of(cs)
    ctx.check(canon_of(got) == want, "content", lambda: f"legacy {canon_of(got)}\n{want}")


def case_unknown(ctx, rng):
    """Unknown types are refused."""
    cs = build(gen_spec(rng, small=True, n=3), seed=1)
    d = cs.to_serialized_dict()
    k = rng.choice(["type", "missing"])
    h = rng.choice(d["hyperparameters"])
    if k == "type":
        h["type"] = "no_such_type"
    else:
        del h["type"]
    try:
        ConfigurationSpace.from_serialized_dict(d)
    except (KeyError, ValueError):
        ctx.check(True, "unknown-refused")
    else:
        ctx.check(False, "unknown-refused", lambda: d)


def case_big(ctx, rng):
    """Bounds and defaults a float cannot hold come back exactly."""
    hps = []
    for i in range(rng.randint(1, 3)):
        lo = rng.choice([1, -1]) * (2**53 + rng.randrange(1, 2**20)) if rng.random() < 0.6 else rng.randrange(1, 50)
        hi = abs(lo) + 2**53 + rng.randrange(2**30)
        hps.append(UniformIntegerHyperparameter(f"h{i}", lo, hi, default_value=rng.choice([lo, hi])))
    ctx.note(hps=[str(h) for h in hps])
    cs = ConfigurationSpace()
    cs.add(*hps)
    for name, _, got in trips(ctx, rng, cs):
        for h in hps:
            g = got[h.name]
            ctx.check((g.lower, g.upper, g.default_value, g.log) == (h.lower, h.upper, h.default_value, h.log) and type(g.lower) is int, "big-integers", lambda: f"{name}: {h} became {g}")
        ctx.state("big", str(cs), name)


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("random", case_random, 50, 2000),
    ("deep", lambda ctx, rng: case_random(ctx, rng, n=rng.choice([5, 8]), p_cond=0.9, n_forb=4, small=True), 20, 700),
    ("meta", case_meta, 2, 10),
    ("legacy", case_legacy, 15, 300),
    ("unknown", case_unknown, 3, 20),
    ("big", case_big, 4, 60),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 3, 100),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
