"""P34: hyperparameter types composed of the library's components work like the built-in ones."""
from __future__ import annotations

import copy
import io
import json
import pickle
from collections import Counter

import ConfigSpace as C
import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace.read_and_write import json as cs_json
from ConfigSpace.util import get_one_exchange_neighbourhood, get_random_neighbor

from rv.build import build, make_hp
from rv.checks.p02 import illegal_value
from rv.checks.p10 import available
from rv.checks.p10 import judge as judge_neighbors
from rv.checks.p12 import discrete_neighbors, numeric_neighbors
from rv.checks.p15 import judge_reports
from rv.checks.p19 import behaviour, prefixed, same_contents
from rv.custom import DECODERS, ENCODERS, Stretched, chances, gen_rv, nearby, own_variant, unit_rv
from rv.dist import count_ok, dkw
from rv.extract import canon_hp, canon_of, hp_spec
from rv.hpgen import some_values
from rv.model import HP, Model, Undecided, index_in
from rv.mon import cfg_state, check_config, real_defaults, value_equal
from rv.spec import describe, gen_hp, gen_spec
from rv.checks.p17 import yaml

RULE = "a state is a distinct (definition of an own type, or space with own types; aspect) that was judged against the reference"
NEEDS = [
    "verdict:in-domain", "verdict:cdf", "verdict:frequency", "verdict:density", "verdict:legal", "verdict:illegal", "verdict:roundtrip", "verdict:distinct", "verdict:different", "verdict:number",
    "verdict:reported-number", "verdict:equal", "verdict:unequal", "verdict:sample-valid", "verdict:neighbor-valid", "verdict:accepts", "verdict:rejects", "verdict:same-samples", "verdict:no-encoder",
    "own:OwnInteger", "own:OwnInteger:log", "own:OwnFloat", "own:OwnFloat:log", "own:OwnChoice", "own:OwnScale", "own:stretched", "own:stretched:whole", "trip:json", "trip:dict", "trip:pickle", "trip:deepcopy", "trip:builtin-encoder:same-name", "trip:builtin-encoder:own-name",
    "space:condition", "space:forbidden", "composed", "asked:some", "asked:all", "asked:more",
]
ASSUMPTIONS = [
    "own types are dataclasses derived from the base classes, as the documentation shows",
    "encoders and decoders pass themselves on when they are called for nested parts, as the built-in ones do",
    "how a continuous distribution is cut into integers is only claimed up to one unit, its density up to a factor",
]


def own_hp(ctx, rng):
    d = own_variant(rng, gen_hp(rng, "h", small=rng.random() < 0.5, meta=True))
    if d["k"] == "cat" and rng.random() < 0.5:
        # long ones, for neighbors that are not simply all the others
        n = rng.choice([20, 50, 99, 150, 297])
        d["choices"] = [f"c{i}" for i in range(n)] if rng.random() < 0.5 else list(range(n))
        d.pop("weights", None)
        d["def"] = rng.choice(d["choices"])
    ctx.note(hp=d)
    hp = make_hp(d)
    ctx.event("own:" + type(hp).__name__ + (":log" if d.get("log") else ""))
    return d, HP(d), hp


def key(d):
    return repr(sorted((k, repr(v)) for k, v in d.items()))


def case_values(ctx, rng):
    """Legality and conversion."""
    d, ref, hp = own_hp(ctx, rng)
    vals = some_values(rng, d, 12)
    if len(vals) > 40:
        vals = [vals[0], vals[-1], *rng.sample(vals, 38)]
    for v in vals:
        ctx.check(bool(hp.legal_value(v)), "legal", lambda: f"{v!r}")
        x = hp.to_vector(v)
        ctx.check(abs(float(x) - ref.vec(v)) < 1e-9 and bool(hp.legal_vector(x)), "legal", lambda: f"{v!r}: vector {x}")
        w = hp.to_value(x)
        ctx.check(value_equal(w, v) or (ref.is_float and abs(w - v) <= 1e-9 * max(abs(v), ref.hi - ref.lo)), "roundtrip", lambda: f"{v!r} -> {x} -> {w!r}")
        if ref.is_int:
            ctx.check(type(w) is int, "roundtrip", lambda: f"{v!r} -> {w!r} of {type(w)}")
    xs = hp.to_vector(np.array([*vals, None], dtype=object)[:-1]) if ref.choices is not None else hp.to_vector(vals)
    ctx.check(np.allclose(np.asarray(xs, dtype=float), [ref.vec(v) for v in vals], atol=1e-9), "roundtrip", lambda: f"{vals} -> {xs}")
    ctx.check(bool(np.all(hp.legal_vector(np.asarray(xs, dtype=float)))), "legal", lambda: f"{xs}")
    for _ in range(6):
        try:
            v = illegal_value(rng, d)
            if v is None or isinstance(v, (list, tuple)) or ref.legal(v):
                continue
        except Undecided:
            continue
        ctx.check(not hp.legal_value(v), "illegal", lambda: f"{v!r} is legal")
    for x in (-0.5, 1.5, float(ref.size), 0.5, -1.0, 2.0):
        try:
            want = ref.legal_vec(x)
        except Undecided:
            continue
        ctx.check(bool(hp.legal_vector(x)) == want and bool(hp.legal_vector(np.array([x]))[0]) == want, "illegal", lambda: f"vector {x}: expected {want}")
    ctx.check(hp.size == ref.size, "size", lambda: f"{hp.size}")
    ctx.check(canon_hp(hp_spec(hp)) == canon_hp({**d, "def": hp.default_value}), "attributes", lambda: hp_spec(hp))
    ctx.check(hp.lower_vectorized == 0 and hp.upper_vectorized == (1 if ref.choices is None else len(ref.choices) - 1), "bounds", lambda: f"{hp.lower_vectorized} {hp.upper_vectorized}")
    ctx.state(key(d), "values")


def case_draws(ctx, rng):
    """Samples and densities follow the distribution given as component."""
    d, ref, hp = own_hp(ctx, rng)
    n = 8000
    seed = rng.randrange(2**31)
    way = rng.choice(["value", "vector", "rvs"])
    if way == "value":
        vals = hp.sample_value(n, seed=np.random.RandomState(seed))
    elif way == "vector":
        vals = hp.to_value(hp.sample_vector(n, seed=np.random.RandomState(seed)))
    else:
        vals = hp.rvs(n, random_state=seed)
    again = hp.sample_value(5, seed=np.random.RandomState(seed)), hp.sample_value(5, seed=np.random.RandomState(seed))
    ctx.check(list(again[0]) == list(again[1]), "same-samples", lambda: again)
    xs = hp.sample_vector(20, seed=np.random.RandomState(seed))
    ctx.check(np.shape(xs) == (20,) and bool(np.all(hp.legal_vector(np.asarray(xs)))), "in-domain", lambda: f"{xs}")
    v = hp.sample_value(seed=np.random.RandomState(seed))
    ctx.check(ref.legal(v) and bool(hp.legal_value(v)), "in-domain", lambda: f"{v!r}")
    ctx.state(key(d), "draws", way)
    if ref.choices is not None:
        ps = chances(d)
        cnt = Counter(index_in(v, ref.choices) for v in (vals[:2000] if len(ps) > 50 else vals))
        m = sum(cnt.values())
        ctx.check(-1 not in cnt, "in-domain", lambda: f"{cnt}")
        for i, p in enumerate(ps):
            ctx.check(count_ok(cnt[i], m, p), "frequency", lambda: f"{ref.choices[i]!r}: {cnt[i]} of {m}, expected {p}")
        got = hp.pdf_vector(np.arange(len(ps), dtype=float))
        ctx.check(np.allclose(got, ps, atol=1e-9), "density", lambda: f"{got} {ps}")
        ctx.check(abs(hp.get_max_density() - max(ps)) < 1e-9, "density", lambda: f"{hp.get_max_density()} {max(ps)}")
        out = hp.pdf_vector(np.array([-1.0, len(ps), 0.5, np.nan]))
        ctx.check(not np.any(out), "density", lambda: f"outside {out}")
        return
    a = np.sort(np.asarray(vals, dtype=float))
    bad = a[~((a >= ref.lo) & (a <= ref.hi))]
    ctx.check(len(bad) == 0, "in-domain", lambda: f"{bad[:5]}")
    unit = (lambda v: (np.log(v) - np.log(ref.lo)) / (np.log(ref.hi) - np.log(ref.lo))) if ref.log else (lambda v: (v - ref.lo) / (ref.hi - ref.lo))
    rv = unit_rv(d)
    eps = dkw(n)
    if ref.is_float:
        f = rv.cdf(unit(a))
        dist = max((np.arange(1, n + 1) / n - f).max(), (f - np.arange(n) / n).max())
        ctx.check(dist <= eps + 1e-4, "cdf", lambda: f"distance {dist:.4f} > {eps:.4f}")
        x = np.linspace(0.01, 0.99, 50)
        got = hp.pdf_vector(x)
        ctx.check(np.allclose(got, rv.pdf(x), rtol=1e-6, atol=1e-9), "density", lambda: f"{got} {rv.pdf(x)}")
        vs = hp.to_value(x)
        ctx.check(np.allclose(hp.pdf_values(vs), got, rtol=1e-4, atol=1e-6), "density", lambda: "of values")
        ctx.check((got <= hp.get_max_density() * (1 + 1e-9)).all(), "density", lambda: f"above {hp.get_max_density()}")
        ctx.check(not np.any(hp.pdf_vector(np.array([-0.1, 1.1, np.nan]))), "density", "outside")
        return
    ctx.check(bool((a == np.rint(a)).all()), "in-domain", "not whole")
    grid = np.unique(np.linspace(ref.lo, ref.hi, 300).round())
    emp = np.searchsorted(a, grid, side="right") / n
    low = np.where(grid - 1 < ref.lo, 0.0, rv.cdf(unit(np.maximum(grid - 1, ref.lo))))
    high = np.where(grid + 1 > ref.hi, 1.0, rv.cdf(unit(np.minimum(grid + 1, ref.hi))))
    bad = (emp < low - eps) | (emp > high + eps)
    ctx.check(not bad.any(), "cdf", lambda: [(int(g), e, x, y) for g, e, x, y, b in zip(grid, emp, low, high, bad) if b][:4])
    if d["own"]["rv"] is None and ref.size <= 50:
        cnt = Counter(a.astype(int).tolist())
        for v in range(ref.lo, ref.hi + 1):
            ctx.check(count_ok(cnt[v], n, 1 / ref.size), "frequency", lambda: f"{v}: {cnt[v]} of {n}, expected 1/{ref.size}")
    got = hp.pdf_values(grid.astype(np.int64))
    want = rv.pdf(unit(grid))
    i = int(want.argmax())
    if want[i] == 0:
        ctx.skip("density:zero-everywhere")
        return
    ok = got[i] > 0 and np.allclose(got * (want[i] / got[i]), want, rtol=1e-6, atol=1e-9)
    ctx.check(ok, "density", lambda: f"{got[:9]} {want[:9]}")


def case_neighbors(ctx, rng):
    d, ref, hp = own_hp(ctx, rng)
    vals = some_values(rng, d, 6)
    if len(vals) > 8:
        vals = [vals[0], vals[-1], *rng.sample(vals, 6)]
    for v in vals:
        av = available(ref, v)
        got = hp.get_num_neighbors(v)
        ctx.check(got == av, "reported-number", lambda: f"{v!r}: {got} instead of {av}")
        ns = {1, 2, 4, rng.choice([5, 8, 20])}
        if av < 1000:
            ns |= {max(1, av), max(1, av - 1), av + 1, av + 10, max(1, av // 2)}
        for n in sorted(ns):
            std = rng.choice([None, None, 0.05, 0.2, 1.0])
            how = rng.choice(["values", "vector"])
            ctx.event("asked:" + ("some" if n < av else "all" if n == av else "more"))
            judge_neighbors(ctx, ref, hp, v, n, std, rng.randrange(2**31), how)
    ctx.state(key(d), "neighbors")


def case_identity(ctx, rng):
    """Equality, copies and changed copies."""
    d, ref, hp = own_hp(ctx, rng)
    twin = make_hp(copy.deepcopy(d))
    for how, o in [("twin", twin), ("deepcopy", copy.deepcopy(hp)), ("copy", copy.copy(hp)), ("pickle", pickle.loads(pickle.dumps(hp))), ("changed", hp.copy())]:
        ctx.check(hp == o and o == hp and not hp != o, "equal", lambda: f"{how}: {hp} {o}")
        ctx.check(canon_hp(hp_spec(hp)) == canon_hp(hp_spec(o)) and o.meta == hp.meta, "equal", lambda: f"{how}: {hp_spec(o)}")
        s = rng.randrange(2**31)
        a, b = (list(x.sample_value(4, seed=np.random.RandomState(s))) for x in (hp, o))
        ctx.check(a == b, "same-samples", lambda: f"{how}: {a} {b}")
        v = some_values(rng, d, 3)[0]
        a, b = (list(x.neighbors_values(v, 3, seed=np.random.RandomState(s))) for x in (hp, o))
        ctx.check(a == b, "same-samples", lambda: f"{how}: neighbors {a} {b}")
    ctx.check(hp.copy(name="other").name == "other" and hp.name == "h", "changed-copy", "name")
    # other components make another hyperparameter
    e = copy.deepcopy(d)
    if d["k"] in ("uint", "ufloat"):
        what = rng.choice(["rv", "range"])
        if what == "rv":
            e["own"]["rv"] = nearby(rng, d["own"]["rv"] or ["uniform", []])
        else:
            e["hi"] = e["hi"] + (1 if ref.is_int else (e["hi"] - e["lo"]))
    elif d["k"] == "cat":
        e["choices"] = [*e["choices"], "one more choice"]
        e.pop("weights", None)
    else:
        e["own"]["p"] = 0.33
        if len(e["seq"]) == 1:
            e["seq"] = [e["seq"][0] + 1]
            e.pop("def", None)
    e["def"] = hp.default_value if e.get("def") is not None else None
    if e["def"] is None:
        del e["def"]
    o = make_hp(e)
    ctx.check(hp != o and o != hp, "unequal", lambda: f"{d} {e}")
    if d["k"] in ("uint", "ufloat"):
        u = hp.to_uniform()
        cls = C.UniformIntegerHyperparameter if d["k"] == "uint" else C.UniformFloatHyperparameter
        ctx.check(type(u) is cls and (u.lower, u.upper, u.log, u.name) == (hp.lower, hp.upper, hp.log, hp.name) and value_equal(u.default_value, hp.default_value), "uniform", lambda: f"{hp} {u}")
    ctx.state(key(d), "identity")


def case_stretched(ctx, rng):
    """An own transformer, and vectors from another range than the unit interval."""
    whole = rng.random() < 0.6
    lo = rng.choice([0, 1, -7, 100])
    hi = lo + rng.choice([1, 2, 4, 9, 30, 100, 333])
    low = rng.choice([0, -1, 2.5, 10])
    high = low + rng.choice([1, 2, 7, 0.25, 100])
    rv = gen_rv(rng)
    args = ("h", rv, lo, hi, low, high, not whole and rng.random() < 0.6, whole, rng.random() < 0.5)
    ctx.note(args=args)
    hp = Stretched(*args)
    ctx.event("own:stretched" + (":whole" if whole else ""))
    ctx.check(hp.lower_vectorized == low and hp.upper_vectorized == high, "bounds", lambda: f"{hp.lower_vectorized} {hp.upper_vectorized}")
    n, seed = 4000, rng.randrange(2**31)
    xs = hp.sample_vector(n, seed=np.random.RandomState(seed))
    ctx.check(bool(np.all(hp.legal_vector(xs))), "in-domain", lambda: f"{xs[:20]}")
    vals = hp.sample_value(n, seed=np.random.RandomState(seed))
    ctx.check(bool(np.all(hp.legal_value(vals))) and np.allclose(hp.to_vector(vals), xs, atol=1e-6 * (high - low)), "in-domain", lambda: f"{vals[:20]}")
    a, eps = np.sort(xs), dkw(n)
    cdf = hp.reference.cdf
    if whole:
        step = (high - low) / (hi - lo)
        grid = low + np.arange(hi - lo + 1) * step
        emp = np.searchsorted(a, grid + step / 4, side="right") / n
        below, above = cdf(grid - step), np.where(np.arange(hi - lo + 1) == hi - lo, 1.0, cdf(grid + step))
        bad = (emp < below - eps) | (emp > above + eps)
        ctx.check(not bad.any(), "cdf", lambda: [(float(g), e, x, y) for g, e, x, y, b in zip(grid, emp, below, above, bad) if b][:4])
        got, want = hp.pdf_vector(grid), hp.reference.pdf(grid)
    else:
        f = cdf(a)
        dist = max((np.arange(1, n + 1) / n - f).max(), (f - np.arange(n) / n).max())
        ctx.check(dist <= eps + 1e-4, "cdf", lambda: f"distance {dist:.4f} > {eps:.4f}")
        x = np.linspace(low, high, 53)[1:-1]
        got, want = hp.pdf_vector(x), hp.reference.pdf(x)
        ctx.check(np.allclose(got, want, rtol=1e-6), "density", lambda: f"{got[:9]} {want[:9]}")
    i = int(want.argmax())
    if want[i] > 0:
        ctx.check(got[i] > 0 and np.allclose(got * (want[i] / got[i]), want, rtol=1e-6, atol=1e-9), "density", lambda: f"{got[:9]} {want[:9]}")
    ctx.check(not np.any(hp.pdf_vector(np.array([low - 1.0, high + 1.0]))), "density", "outside")
    for v in {int(lo), int(hi), rng.randint(lo, hi)} if whole else {float(lo), float(hi), rng.uniform(lo, hi)}:
        for k in {1, 3, max(1, hi - lo - 1), hi - lo, hi - lo + 5}:
            out = hp.neighbors_values(v, k, std=rng.choice([None, 0.1, 1.0]), seed=np.random.RandomState(rng.randrange(2**31)))
            text = lambda: f"neighbors of {v!r}, n={k}: {list(out)[:30]}"  # noqa: E731
            ctx.check(len(out) == (min(k, hi - lo) if whole else k), "number", text)
            ctx.check(bool(np.all(hp.legal_value(out))), "legal", text)
            ctx.check(not (out == v).any() and len(np.unique(out)) == len(out), "distinct", text)
    # the distribution and the transformer are all that such types are compared by
    twin = Stretched(*args)
    twin.pdf_vector(np.array([low + 0.0]))
    for o in (twin, copy.deepcopy(hp), pickle.loads(pickle.dumps(hp))):
        ctx.check(hp == o and o == hp, "equal", lambda: f"{args}")
    for other in (
        ("h", nearby(rng, rv), *args[2:]),
        (*args[:3], hi + 1, *args[4:]),
        (*args[:5], high + 0.5, *args[6:]),
    ):
        o = Stretched(*other)
        ctx.check(hp != o and o != hp, "unequal", lambda: f"{args} {other}")
    cs = ConfigurationSpace(seed=1)
    cs.add(hp, C.CategoricalHyperparameter("c", ["x", "y"]))
    mid = hp.to_value(low + 0.5 * (high - low)) if not whole else (lo + hi) // 2
    cs.add(C.GreaterThanCondition(cs["c"], cs["h"], mid))
    for c in cs.sample_configuration(30):
        c.check_valid_configuration()
        v = c["h"]
        ctx.check(lo <= v <= hi and ("c" in c) == (v > mid), "sample-valid", lambda: f"{dict(c)}, c if h > {mid}")
    for _, o in zip(range(6), get_one_exchange_neighbourhood(c, seed=2)):
        v = o["h"]
        ctx.check(lo <= v <= hi and ("c" in o) == (v > mid), "neighbor-valid", lambda: f"{dict(o)}, c if h > {mid}")
    ctx.state(repr(args), "stretched")


def own_spec(ctx, rng, **kw):
    spec = gen_spec(rng, own=rng.choice([0.5, 1.0]), small=True, meta=True, **kw)
    ctx.note(spec=spec)
    if spec["conds"]:
        ctx.event("space:condition")
    if spec["forbs"]:
        ctx.event("space:forbidden")
    for d in spec["hps"]:
        if "own" in d:
            ctx.event("in-space:" + d["k"])
    return spec, Model(spec), {d["name"]: d for d in spec["hps"]}


def changed_in(a, b):
    return [n for n in {*a, *b} if n not in a or n not in b or not value_equal(a[n], b[n])]


def judge_space(ctx, rng, spec, cs, where, n=8):
    model, defs = Model(spec), {d["name"]: d for d in spec["hps"]}
    judge_reports(ctx, spec, cs)
    behaviour(ctx, rng, model, defs, spec, cs, n, where)
    check_config(ctx, model, cs, cs.get_default_configuration(), "default")
    got = cs.sample_configuration(n + 1)
    for c in got:
        check_config(ctx, model, cs, c, "sample")
        d = Configuration(cs, values=dict(c))
        ctx.check(d == c and hash(d) == hash(c), "same-config", lambda: f"{where}: {dict(c)}")
    return got


def case_space(ctx, rng):
    spec, model, defs = own_spec(ctx, rng)
    cs = build(spec, seed=rng.randrange(1000), rng=rng)
    got = judge_space(ctx, rng, spec, cs, "built")
    sized = any(HP(d).size > 1 for d in spec["hps"])
    for c in got[:3]:
        before = cfg_state(c)
        if sized and any(HP(defs[n]).size > 1 for n in dict(c)):
            for _, o in zip(range(12), get_one_exchange_neighbourhood(c, seed=rng.randrange(1000))):
                check_config(ctx, model, cs, o, "neighbor")
                ctx.check(not np.array_equal(c.get_array(), o.get_array(), equal_nan=True), "neighbor-differs", lambda: f"{dict(c)}")
            try:
                o = get_random_neighbor(c, seed=rng.randrange(1000))
            except ValueError as e:
                nb = discrete_neighbors(model, dict(c), real_defaults(cs))
                if nb is None:
                    nb = numeric_neighbors(rng, spec, model, dict(c))
                ctx.check(not nb, "refused", lambda: f"{e!r} although {nb} are neighbors of {dict(c)}")
            else:
                check_config(ctx, model, cs, o, "neighbor")
        ctx.check(cfg_state(c) == before, "unchanged")
        # assigning values
        n = rng.choice(list(c))
        e = Configuration(cs, values=dict(c))
        vals = some_values(rng, defs[n], 4)
        v = rng.choice(vals)
        try:
            want = model.assign(dict(c), n, v, real_defaults(cs))
            bad = model.defects(want)
        except Undecided:
            continue
        try:
            e[n] = v
        except ValueError:
            ctx.check(bool(bad), "assigned", lambda: f"{dict(c)}: {n}={v!r} refused, expected {want}")
        else:
            ctx.check(not bad and not changed_in(dict(e), want), "assigned", lambda: f"{dict(c)}: {n}={v!r}: {dict(e)}, expected {want} {bad}")
    # copies behave alike
    for how, o in [("deepcopy", copy.deepcopy(cs)), ("pickle", pickle.loads(pickle.dumps(cs))), ("rebuilt", build(spec, rng=rng))]:
        ctx.event("trip:" + how)
        same_space(ctx, rng, spec, cs, o, how)
    text = repr(cs)
    ctx.check(all(n in text or repr(n) in text for n in cs), "printed", lambda: text)
    ctx.state(repr(spec), "space")
    ctx.sample(describe(spec))


def same_space(ctx, rng, spec, cs, o, how):
    ctx.check(cs == o and o == cs, "equal", lambda: f"{how}: {cs}\n{o}")
    ctx.check(canon_of(o) == canon_of(cs) and list(o) == list(cs), "equal", lambda: f"{how}: {canon_of(o)}\n{canon_of(cs)}")
    ctx.check(all(o[n].meta == cs[n].meta for n in cs), "equal", lambda: f"{how}: meta")
    s = rng.randrange(2**31)
    a = copy.deepcopy(cs)
    a.seed(s)
    o.seed(s)
    x, y = [[cfg_state(c) for c in z.sample_configuration(4)] for z in (a, o)]
    ctx.check(x == y, "same-samples", lambda: f"{how}: {x}\n{y}")


def no_tuples(v):
    return [no_tuples(x) for x in v] if isinstance(v, (list, tuple)) else v


# built-in types under names and in a form of the user's own
def enc_cat(hp, enc):
    return {"n": hp.name, "c": [[c] for c in hp.choices], "w": list(hp.weights) if hp.weights else None, "d": hp.default_value, "m": hp.meta}


def dec_cat(item, space, dec):
    return C.CategoricalHyperparameter(item["n"], [c[0] for c in item["c"]], weights=item["w"], default_value=item["d"], meta=item["m"])


def enc_eq(c, enc):
    return {"who": [c.child.name, c.parent.name], "v": [c.value]}


def dec_eq(item, space, dec):
    return C.EqualsCondition(space[item["who"][0]], space[item["who"][1]], item["v"][0])


def enc_and(c, enc):
    return {"parts": [enc(x, enc) for x in c.components]}


def dec_and(item, space, dec):
    return C.AndConjunction(*[dec(x, space, dec) for x in item["parts"]])


def enc_feq(f, enc):
    return {"h": f.hyperparameter.name, "v": [f.value]}


def dec_feq(item, space, dec):
    return C.ForbiddenEqualsClause(space[item["h"]], item["v"][0])


BUILTIN = {
    C.CategoricalHyperparameter: ("hyperparameters", "my cat", "categorical", enc_cat, dec_cat),
    C.EqualsCondition: ("conditions", "my eq", "EQ", enc_eq, dec_eq),
    C.AndConjunction: ("conditions", "my and", "AND", enc_and, dec_and),
    C.ForbiddenEqualsClause: ("forbiddens", "my clause", "EQUALS", enc_feq, dec_feq),
}


def case_serialized(ctx, rng):
    spec, model, defs = own_spec(ctx, rng, p_cond=rng.choice([0.3, 0.9]), n_forb=rng.choice([0, 2, 4]))
    cs = build(spec, seed=1, name=rng.choice([None, "space"]), rng=rng)
    enc, dec = dict(ENCODERS), {k: dict(v) for k, v in DECODERS.items()}
    swapped = rng.sample(list(BUILTIN), rng.choice([0, 1, 2, 4]))
    seen, read = [], []
    same_name = rng.random() < 0.4  # own forms under the names of the built-in ones
    for t in swapped:
        kind, nm, theirs, e, d = BUILTIN[t]

        def wrapped(item, sub, e=e, nm=nm):
            seen.append(nm)
            return e(item, sub)

        def unwrap(item, space, sub, d=d, nm=nm):
            read.append(nm)
            return d(item, space, sub)

        enc[t] = (theirs if same_name else nm, wrapped)
        dec.setdefault(kind, {})[theirs if same_name else nm] = unwrap
    own = [d["name"] for d in spec["hps"] if "own" in d]
    if own:
        try:
            cs.to_serialized_dict()
        except ValueError:
            ctx.check(True, "no-encoder")
        else:
            ctx.check(False, "no-encoder", lambda: f"{own} written without an encoder")
    before = canon_of(cs)
    data = cs.to_serialized_dict(encoders=enc)
    text = json.dumps(data)
    if seen:
        ctx.event("trip:builtin-encoder")
        ctx.event("trip:builtin-encoder:" + ("same-name" if same_name else "own-name"))
    for nm in ("my cat", "my eq", "my and", "my clause"):
        t = next(t for t in BUILTIN if BUILTIN[t][1] == nm)
        want = 0
        if t in swapped:
            want = sum(type(h) is t for h in cs.values()) + sum(count_parts(c, t) for c in [*cs.conditions, *cs.forbidden_clauses])
        ctx.check(seen.count(nm) == want and text.count(json.dumps(nm)) == (0 if same_name else want), "encoder-used", lambda: f"{nm}: called {seen.count(nm)} times, {text.count(json.dumps(nm))} in the text, {want} such parts")
    keep = copy.deepcopy(data)
    got = ConfigurationSpace.from_serialized_dict(data, decoders=dec)
    ctx.check(sorted(read) == sorted(seen), "decoder-used", lambda: f"written {seen}, read {read}")
    ctx.check(repr(data) == repr(keep), "dict-untouched", lambda: f"{keep}\n{data}")
    ctx.event("trip:dict")
    same_space(ctx, rng, spec, cs, got, "dict")
    judge_space(ctx, rng, spec, got, "dict", 4)
    b = io.StringIO()
    cs.to_json(b, encoders=enc)
    b.seek(0)
    ctx.event("trip:json")
    same_space(ctx, rng, spec, cs, ConfigurationSpace.from_json(b, decoders=dec), "json")
    text = cs_json.write(cs, encoders=enc)
    same_space(ctx, rng, spec, cs, cs_json.read(text, decoders=dec), "older json")
    if yaml is not None:
        b = io.StringIO()
        cs.to_yaml(b, encoders=enc)
        b.seek(0)
        ctx.event("trip:yaml")
        same_space(ctx, rng, spec, cs, ConfigurationSpace.from_yaml(b, decoders=dec), "yaml")
    ctx.check(canon_of(cs) == before, "space-untouched")
    used = [] if same_name and seen else own or list(seen)
    if used:
        lacking = {k: {} for k in dec}
        try:
            ConfigurationSpace.from_serialized_dict(copy.deepcopy(data), decoders=rng.choice([None, {}, lacking]))
        except ValueError:
            ctx.check(True, "no-decoder")
        else:
            ctx.check(False, "no-decoder", lambda: f"{used} read without a decoder")
    # the next call without encoders is not influenced
    plain = build({"hps": [{"k": "cat", "name": "a", "choices": ["x", "y"]}], "conds": [], "forbs": []})
    ctx.check(plain.to_serialized_dict()["hyperparameters"][0]["type"] == "categorical", "encoder-forgotten", lambda: plain.to_serialized_dict())
    ctx.state(repr(spec), "serialized", sorted(BUILTIN[t][1] for t in swapped))


def count_parts(c, t):
    return (type(c) is t) + sum(count_parts(x, t) for x in getattr(c, "components", ()))


def case_composed(ctx, rng):
    """Inside another space."""
    spec, model, defs = own_spec(ctx, rng, n=rng.choice([1, 2, 4]))
    cs = build(spec, seed=1, rng=rng)
    target = {"hps": [own_variant(rng, gen_hp(rng, "sel", kinds=["cat"], small=True))], "conds": [], "forbs": []}
    outer = build(target, seed=2)
    want = prefixed(spec, "sub", ":")
    kw = {}
    if rng.random() < 0.7:
        v = rng.choice(target["hps"][0]["choices"])
        kw = {"parent_hyperparameter": {"parent": outer["sel"], "value": v}}
        roots = [n for n in Model(want).hps if n not in Model(want).cond]
        want = {**want, "conds": want["conds"] + [("EQ", r, "sel", v) for r in roots]}
    want = {"hps": target["hps"] + want["hps"], "conds": want["conds"], "forbs": want["forbs"]}
    outer.add_configuration_space("sub", cs, **kw)
    ctx.event("composed")
    same_contents(ctx, outer, want, "composed")
    judge_space(ctx, rng, want, outer, "composed", 6)
    judge_space(ctx, rng, spec, cs, "source", 2)
    ctx.state(repr(want), "composed")


CASES = [
    ("values", case_values, 25, 800),
    ("draws", case_draws, 25, 800),
    ("neighbors", case_neighbors, 25, 800),
    ("stretched", case_stretched, 25, 800),
    ("identity", case_identity, 20, 500),
    ("space", case_space, 30, 900),
    ("serialized", case_serialized, 30, 900),
    ("composed", case_composed, 15, 400),
]
