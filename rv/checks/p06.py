"""P06: values and vectors convert back and forth without loss."""
from __future__ import annotations

import math

import numpy as np

from rv.build import build, make_hp
from rv.hpgen import as_array, some_values, wide_hp
from rv.model import HP, Model, index_in
from rv.mon import vec_close
from rv.spec import gen_spec, hard, hard_hp

RULE = (
    "a state is a distinct (definition of a hyperparameter, value or vector entry) converted by the library and compared with "
    "the reference conversion"
)
NEEDS = [
    "verdict:value-vector-value", "verdict:vector-value-legal", "verdict:order", "verdict:array-to-vector", "verdict:array-to-value",
    "verdict:type", "verdict:plain-number", "verdict:ordinal-order", "verdict:sampled-legal", "hp:uint:log", "hp:ufloat:log", "hp:cat", "hp:ord", "hp:const", "hp:nint", "hp:bfloat",
]
ASSUMPTIONS = ["integer ranges up to 1e10; floats are compared up to the rounding to 13 decimals the library applies"]


def ftol(hp) -> float:
    return 2e-13 + 1e-12 * (abs(hp.lo) + abs(hp.hi))


def type_ok(hp, v) -> bool:
    """Values come back as the declared type."""
    if hp.is_int:
        return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))
    if hp.is_float:
        return isinstance(v, (float, np.floating))
    cl = {type(c) for c in hp.choices}
    if cl == {str}:
        return isinstance(v, str)
    if cl == {bool}:
        return isinstance(v, (bool, np.bool_))
    if cl == {int}:
        return isinstance(v, (int, np.integer))
    if cl == {float}:
        return isinstance(v, (float, np.floating))
    if cl & {str, type(None)}:
        # mixed with text: exactly the objects that were given
        return type(v) is type(hp.choices[index_in(v, hp.choices)])
    return True


def equal(hp, a, b) -> bool:
    if hp.is_float:
        return abs(a - b) <= (ftol(hp) if not hp.log else 2e-13 + 1e-9 * abs(b))
    if hp.choices is not None:
        return index_in(a, hp.choices) == index_in(b, hp.choices) >= 0
    return a == b


def case_hp(ctx, rng, d=None, hp=None):
    d = d or wide_hp(rng)
    ref = HP(d)
    ctx.note(hp=d)
    hp = hp or make_hp(d)
    ctx.event("hp:" + d["k"] + (":log" if d.get("log") else ""))
    values = some_values(rng, d)
    key = repr(sorted((k, repr(v)) for k, v in d.items()))

    # one at a time
    vecs = []
    for v in values:
        x = hp.to_vector(v)
        vecs.append(float(x))
        ctx.state(key, "v", repr(v))
        ctx.check(np.ndim(x) == 0, "scalar-vector", lambda: f"{v!r} -> {x!r}")
        ctx.check(bool(hp.legal_vector(x)), "vector-legal", lambda: f"{v!r} -> {x!r} is not legal")
        if ref.k != "const":
            ctx.check(vec_close(ref, float(x), ref.vec(v)), "vector-exact", lambda: f"{v!r} -> {x!r}, expected {ref.vec(v)!r}")
        back = hp.to_value(x)
        if ref.choices is None:
            ctx.check(type(back) is (int if ref.is_int else float), "plain-number", lambda: f"{v!r} -> {back!r} of {type(back)}")
        ctx.check(equal(ref, back, v), "value-vector-value", lambda: f"{v!r} -> {x!r} -> {back!r}")
        ctx.check(type_ok(ref, back), "type", lambda: f"{v!r} -> {back!r} of {type(back)}")
        # the plain numpy form of a value is the same value
        if ref.choices is None:
            nv = np.int64(v) if ref.is_int else np.float64(v)
            ctx.check(hp.to_vector(nv) == x, "numpy-scalar", lambda: f"{v!r}: {hp.to_vector(nv)!r} instead of {x!r}")

    # whole arrays and lists
    arr = as_array(values)
    keep = arr.copy()
    got = hp.to_vector(arr)
    ctx.check(isinstance(got, np.ndarray) and got.shape == arr.shape and np.array_equal(got, vecs), "array-to-vector", lambda: f"{values}: {got} instead of {vecs}")
    ctx.check(np.array_equal(arr, keep), "input-unchanged", lambda: f"{keep} became {arr}")
    got = hp.to_vector(list(values))
    ctx.check(np.array_equal(got, vecs), "list-to-vector", lambda: f"{values}: {got} instead of {vecs}")
    vv = np.array(vecs, dtype=float)
    keep = vv.copy()
    back = hp.to_value(vv)
    ones = [hp.to_value(x) for x in vecs]
    ctx.check(
        isinstance(back, np.ndarray) and back.shape == vv.shape and all(equal(ref, a, b) and (not ref.is_float or a == b) for a, b in zip(back, ones)),
        "array-to-value", lambda: f"{vecs}: {back} instead of {ones}",
    )
    ctx.check(all(type_ok(ref, v) for v in back), "type-array", lambda: f"{back!r}")
    ctx.check(np.array_equal(vv, keep), "input-unchanged", lambda: f"{keep} became {vv}")
    rev = hp.to_value(vv[::-1])
    ctx.check(all(equal(ref, a, b) for a, b in zip(rev, ones[::-1])), "array-to-value", lambda: f"reversed {vecs}: {rev}")

    # order
    if ref.orderable and len(values) > 1:
        o = sorted(values) if ref.choices is None else list(ref.choices)
        x = hp.to_vector(as_array(o))
        step = np.diff(np.asarray(x, dtype=float))
        ctx.check(bool((step > 0).all()), "order", lambda: f"{o} -> {list(x)}")
    if ref.k == "ord":
        o = list(ref.choices)
        ctx.check([int(i) for i in hp.get_seq_order()] == list(range(len(o))), "ordinal-order", lambda: f"{hp.get_seq_order()}")
        for i in sorted({0, len(o) - 1, *[rng.randrange(len(o)) for _ in range(6)]}):
            j = rng.randrange(len(o))
            ctx.check(hp.get_order(o[i]) == i and index_in(hp.get_value(i), o) == i, "ordinal-order", lambda: f"{o[i]!r}: {hp.get_order(o[i])}, {hp.get_value(i)!r} at {i}")
            for a, b in ((i, j), (i, i)):
                ctx.check(bool(hp.check_order(o[a], o[b])) == (a < b), "ordinal-order", lambda: f"{o[a]!r} before {o[b]!r}: {hp.check_order(o[a], o[b])}")

    # legal and sampled vectors
    if ref.choices is None:
        xs = [0.0, 1.0, 0.5, 1e-9, 1 - 1e-9, 1e-17, np.nextafter(1, 0), *[rng.random() for _ in range(12)]] if ref.is_float else []
        xs = xs + [float(x) for x in hp.sample_vector(20, seed=np.random.RandomState(rng.randrange(2**31)))]
    else:
        xs = [float(x) for x in hp.sample_vector(10, seed=np.random.RandomState(rng.randrange(2**31)))]
    for x in xs:
        ctx.state(key, "x", repr(x))
        ctx.check(bool(hp.legal_vector(x)), "sampled-legal", lambda: f"{x!r}")
        v = hp.to_value(x)
        ctx.check(type_ok(ref, v), "type", lambda: f"{x!r} -> {v!r} of {type(v)}")
        legal = ref.lo <= v <= ref.hi and (v == int(v) if ref.is_int else True) if ref.choices is None else index_in(v, ref.choices) >= 0
        ctx.check(bool(legal) and bool(hp.legal_value(v)), "vector-value-legal", lambda: f"{x!r} -> {v!r}")
        if ref.k != "const":
            ctx.check(equal(ref, v, ref.unvec(x)), "value-exact", lambda: f"{x!r} -> {v!r}, expected {ref.unvec(x)!r}")
        x2 = float(hp.to_vector(v))
        if ref.is_float:
            tol = 1e-9 + (2e-13 + 1e-12 * (abs(ref.lo) + abs(ref.hi))) / (ref.hi - ref.lo)
            if ref.log:
                tol = 1e-9 + (1e-12 / ref.lo + 1e-12) / (math.log(ref.hi) - math.log(ref.lo))
            ctx.check(abs(x2 - x) <= tol, "vector-value-vector", lambda: f"{x!r} -> {v!r} -> {x2!r}")
        else:
            ctx.check(x2 == x, "vector-value-vector", lambda: f"{x!r} -> {v!r} -> {x2!r}")
    if xs:
        many = hp.to_value(np.array(xs))
        ctx.check(all(equal(ref, a, hp.to_value(b)) for a, b in zip(many, xs)), "array-to-value", lambda: f"{xs} -> {many}")
    e = hp.to_vector(np.array([], dtype=float if ref.choices is None else object))
    ctx.check(len(e) == 0, "empty", lambda: f"{e!r}")
    e = hp.to_value(np.array([], dtype=float))
    ctx.check(len(e) == 0, "empty", lambda: f"{e!r}")
    # the bounds of the vector entries
    lo, hi = float(hp.lower_vectorized), float(hp.upper_vectorized)
    ctx.check(all(lo <= x <= hi for x in [*vecs, *xs]), "vector-bounds", lambda: f"{lo}..{hi}: {[*vecs, *xs]}")
    ctx.check(min([*vecs]) == lo and max(vecs) == hi if ref.size <= 200 or ref.choices is None else True, "vector-bounds-reached", lambda: f"{lo}..{hi}: {vecs}")
    ctx.sample({"hp": key, "values": len(values)})


def case_config(ctx, rng, **kw):
    """Whole configurations: the vector and the values of a sample represent each other."""
    from ConfigSpace import Configuration

    spec = gen_spec(rng, **({"n": rng.choice([4, 6, 9])} | kw))
    ctx.note(spec=spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    model = Model(spec)
    for cfg in cs.sample_configuration(6):
        values = dict(cfg)
        arr = np.array(cfg.get_array())
        again = np.array(Configuration(cs, values=values).get_array())
        for n, hp in model.hps.items():
            i = cs.index_of[n]
            if n in values:
                ctx.check(type_ok(hp, values[n]), "config-type", lambda: f"{n}: {values[n]!r} of {type(values[n])}")
                ctx.check(vec_close(hp, again[i], arr[i]), "config-vector", lambda: f"{n}: {values[n]!r}: {again[i]!r} instead of {arr[i]!r}")
                ctx.state(repr(hp.d), repr(values[n]))
            else:
                ctx.check(np.isnan(again[i]) and np.isnan(arr[i]), "config-unset", lambda: f"{n}: {arr[i]!r}, {again[i]!r}")


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [
    ("hp", case_hp, 150, 6000),
    ("config", case_config, 30, 800),
    ("hard", lambda ctx, rng: case_hp(ctx, rng, hard_hp(rng, "h", [])), 30, 800),
    ("hard-config", lambda ctx, rng: case_config(ctx, rng, **hard(rng)), 10, 300),
]
