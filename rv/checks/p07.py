"""P07: legality checks accept exactly the declared domain."""
from __future__ import annotations

import math

import numpy as np

from rv.build import make_hp
from rv.hpgen import as_array, some_values, wide_hp
from rv.model import HP, Undecided, index_in
from rv.spec import hard_hp

RULE = "a state is a distinct (definition of a hyperparameter, candidate value or vector entry, verdict) judged by library and reference"
NEEDS = [
    "legal:value", "illegal:value", "legal:vector", "illegal:vector", "verdict:value-array", "verdict:vector-array", "foreign", "hp:cat", "hp:ord",
    "hp:const", "hp:uint:log", "hp:ufloat", "hp:nint", "hp:nfloat", "hp:bint", "hp:bfloat",
]
ASSUMPTIONS = [
    "integers are tolerant to rounding: only clear fractions are judged as not whole, of vector entries in ranges up to 10000 only",
    "bools are not offered to numeric hyperparameters (bool is a number in Python)",
]


class Odd:
    pass


FOREIGN = ["", "x", "1", "0.5", "True", "None", None, math.nan, math.inf, -math.inf, Odd(), {}, {"a": 1}, 1 + 1j, set(), np.nan, len]


def candidates(rng, ref, d):
    out = some_values(rng, d, 12)
    if ref.choices is None:
        lo, hi = ref.lo, ref.hi
        if ref.is_int:
            out = out + [lo - 1, hi + 1, lo - 2, hi + 2, lo - 10**6, hi + 10**6, float(lo), float(hi), np.int64(lo), np.int32(hi) if abs(hi) < 2**31 else hi, -hi - 1]
            if max(abs(lo), abs(hi)) <= 10**11:
                out += [lo + 0.5, hi - 0.5, lo - 0.5, hi + 0.5, lo + 0.4, hi - 0.3]
        else:
            s = hi - lo
            out = out + [
                float(np.nextafter(lo, -math.inf)), float(np.nextafter(hi, math.inf)), lo - s / 1000, hi + s / 1000, lo - s, hi + s, -hi - 1, np.float64(lo),
                int(lo) if lo == int(lo) else lo, 1e300, -1e300,
            ]
    else:
        c = ref.choices
        for x in c[:6]:
            if isinstance(x, str):
                out = out + [x + " ", x.upper() + "_", x[:-1] + "~", x.encode() if False else x + x]
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                out = out + [x + 0.125, x + 1000, -x - 999, str(x)]
            else:
                out = out + [str(x) + "?"]
        out = out + [len(c), len(c) + 0.5, -1, 10**12]
    return out


def case_value(ctx, rng, d=None):
    d = d or wide_hp(rng)
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    ctx.event("hp:" + d["k"] + (":log" if d.get("log") else ""))
    key = repr(sorted((k, repr(v)) for k, v in d.items()))
    judged = []
    for v in candidates(rng, ref, d) + FOREIGN:
        if isinstance(v, str) and v.endswith("\0"):
            continue
        try:
            want = ref.legal(v)
        except Undecided:
            ctx.skip("rounding")
            continue
        except TypeError:
            want = False
        foreign = any(v is f for f in FOREIGN)
        if foreign:
            ctx.event("foreign")
        if ref.choices is not None and any(isinstance(c, bool) for c in ref.choices) and isinstance(v, (int, float)) and not isinstance(v, bool) and v in (0, 1):
            continue
        got = hp.legal_value(v)
        ctx.event("legal:value" if want else "illegal:value")
        ctx.check(np.ndim(got) == 0 and bool(got) == want, "value", lambda: f"{v!r}: {got!r}, expected {want}")
        ctx.state(key, "v", repr(v) if not isinstance(v, Odd) else "odd", want)
        judged.append((v, want))
    # together
    vals = [v for v, _ in judged if not (isinstance(v, (dict, set)))]
    want = [w for v, w in judged if not (isinstance(v, (dict, set)))]
    obj = np.empty(len(vals), dtype=object)
    obj[:] = vals
    got = hp.legal_value(obj)
    ctx.check(got.shape == obj.shape and [bool(x) for x in got] == want, "value-array", lambda: [(v, w, bool(g)) for v, w, g in zip(vals, want, got) if w != bool(g)])
    got = hp.legal_value(vals)
    ctx.check([bool(x) for x in got] == want, "value-list", lambda: [(v, w, bool(g)) for v, w, g in zip(vals, want, got) if w != bool(g)])
    # arrays numpy would build
    groups = {
        "num": [(v, w) for v, w in judged if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) and abs(v) <= 2**53],
        "str": [(v, w) for v, w in judged if isinstance(v, str)],
    }
    for g in groups.values():
        if g and not (ref.choices is not None and {type(c) for c in ref.choices} & {bool}):
            arr = np.array([v for v, _ in g])
            got = hp.legal_value(arr)
            ctx.check([bool(x) for x in got] == [w for _, w in g], "value-array", lambda: [(v, w, bool(x)) for (v, w), x in zip(g, got) if w != bool(x)])
    ctx.check(len(hp.legal_value(np.array([], dtype=float))) == 0, "value-empty")
    ctx.sample({"hp": key, "judged": len(judged)})


def vec_candidates(rng, ref, d, hp):
    n = len(ref.choices) if ref.choices is not None else 0
    out = [0.0, 1.0, -1.0, 2.0, -0.25, 1.25, 0.5, -0.5, 0.37, 7.0, 1e9, -1e9, math.nan, math.inf, -math.inf, -1e-3, 1 + 1e-3]
    if ref.choices is not None:
        out += [float(n), float(n - 1), n - 0.5, float(n + 1), 0.25, 1.5, n - 1 + 0.25]
    elif ref.is_int and ref.hi - ref.lo <= 10000:
        for v in some_values(rng, d, 8)[:40]:
            out.append(ref.vec(v))
        if not ref.log:
            s = ref.hi - ref.lo
            out += [(i + 0.5) / s for i in range(min(s, 5))] + [-1 / s, 1 + 1 / s, -0.5 / s, 1 + 0.5 / s]
        else:
            for v in (ref.lo, ref.lo + 1, ref.hi - 1):
                w = v + 0.5
                out.append((math.log(w) - math.log(ref.lo)) / (math.log(ref.hi) - math.log(ref.lo)))
    elif ref.is_float:
        out += [rng.random() for _ in range(5)] + [float(np.nextafter(0, -1)), float(np.nextafter(1, 2)), float(np.nextafter(1, 0))]
    return out


def case_vector(ctx, rng):
    d = wide_hp(rng)
    if d["k"] in ("uint", "nint", "bint") and max(abs(d["hi"]), abs(d["lo"])) > 10000:
        d["lo"] = max(min(d["lo"], 1000), -1000)
        d["hi"] = d["lo"] + rng.choice([1, 3, 50, 1000])
        d.pop("def", None)
        if "mu" in d:
            d["mu"] = d["lo"]
    ref = HP(d)
    ctx.note(hp=d)
    hp = make_hp(d)
    key = repr(sorted((k, repr(v)) for k, v in d.items()))
    xs, want = [], []
    for x in vec_candidates(rng, ref, d, hp):
        try:
            w = ref.legal_vec(x)
        except Undecided:
            ctx.skip("rounding")
            continue
        except OverflowError:
            w = False
        got = hp.legal_vector(x)
        ctx.event("legal:vector" if w else "illegal:vector")
        ctx.check(np.ndim(got) == 0 and bool(got) == w, "vector", lambda: f"{x!r}: {got!r}, expected {w}")
        got = hp.legal_vector(np.float64(x))
        ctx.check(bool(got) == w, "vector-numpy", lambda: f"{x!r}: {got!r}, expected {w}")
        if x == x and abs(x) < 1e15 and x == int(x):
            got = hp.legal_vector(int(x))
            ctx.check(bool(got) == w, "vector-int", lambda: f"{x!r}: {got!r}, expected {w}")
        xs.append(x)
        want.append(w)
        ctx.state(key, "x", repr(x), w)
    arr = np.array(xs)
    keep = arr.copy()
    got = hp.legal_vector(arr)
    ctx.check(got.shape == arr.shape and [bool(g) for g in got] == want, "vector-array", lambda: [(x, w, bool(g)) for x, w, g in zip(xs, want, got) if w != bool(g)])
    ctx.check(np.array_equal(arr, keep, equal_nan=True), "input-unchanged")
    for bad in ("x", None, "1", Odd()):
        ctx.check(not hp.legal_vector(bad), "vector-foreign", lambda: f"{bad!r}")
    ctx.check(len(hp.legal_vector(np.array([], dtype=float))) == 0, "vector-empty")


def case_seq(ctx, rng):
    """Choices which are sequences or cannot be hashed."""
    import ConfigSpace as C

    pool = [(1, 2), (3,), ("a", "b"), (1, 2, 3), ()]
    if rng.random() < 0.3:
        pool = [{"a": 1}, {"b": 2}, {}, {"a": 1, "c": 3}]
    k = rng.choice([1, 2, 3])
    ch = rng.sample(pool, k) + rng.sample(["s", 5, None, 2.5], rng.choice([0, 1, 2]))
    rng.shuffle(ch)
    if rng.random() < 0.3:
        ch = [list(c) if isinstance(c, tuple) else c for c in ch]
    kind = rng.choice(["cat", "ord", "const"])
    ctx.note(choices=ch, kind=kind)
    if kind == "cat":
        hp = C.CategoricalHyperparameter("h", ch)
    elif kind == "ord":
        hp = C.OrdinalHyperparameter("h", ch)
    else:
        ch = [c for c in ch if isinstance(c, (tuple, dict))][:1] or [(1, 2)]
        hp = C.Constant("h", ch[0])
    ctx.event("hp:seq-" + kind)
    for i, c in enumerate(ch):
        ctx.check(bool(hp.legal_value(c)), "seq-value", lambda: f"{c!r} of {ch}")
        x = hp.to_vector(c)
        ctx.check(kind == "const" or x == i, "seq-vector", lambda: f"{c!r} of {ch}: {x!r}")
        back = hp.to_value(x)
        ctx.check(index_in(back, ch) == i, "seq-value-back", lambda: f"{c!r} -> {x!r} -> {back!r}")
        ctx.state(kind, repr(ch), i)
    if kind != "const":
        xs = np.arange(len(ch))[::-1].astype(float)
        obj = np.empty(len(ch), dtype=object)
        obj[:] = ch[::-1]
        ctx.check(hp.legal_value(obj).all() and np.array_equal(hp.to_vector(obj), xs), "seq-array", lambda: f"{ch}: {hp.to_vector(obj)}")
        obj = np.empty(4, dtype=object)
        obj[:] = [ch[-1], ch[0], ch[-1], ch[0]]
        ctx.check(list(hp.to_vector(obj)) == [len(ch) - 1, 0, len(ch) - 1, 0], "seq-array", lambda: f"{ch}: {hp.to_vector(obj)}")
        x = len(ch) - 1e-6 * len(ch)
        ctx.check(not hp.legal_vector(x) and not hp.legal_vector(np.array([x]))[0], "seq-past-end", lambda: f"{x} of {ch}")
    for v in ((9, 9), ("zz",), "other", 77):
        ctx.check(not np.any(hp.legal_value(v)), "seq-illegal", lambda: f"{v!r} of {ch}")
    s = hp.sample_value(20, seed=np.random.RandomState(rng.randrange(2**31)))
    ctx.check(len(s) == 20 and all(index_in(v, ch) >= 0 for v in s), "seq-sample", lambda: f"{s}")


QUICK_TIMES = 6  # the quick tier runs the first numbers below this many times over
CASES = [
    ("value", case_value, 120, 5000),
    ("vector", case_vector, 150, 6000),
    ("seq", case_seq, 30, 800),
    ("hard", lambda ctx, rng: case_value(ctx, rng, hard_hp(rng, "h", [])), 30, 800),
]
