"""P25: definitions are checked and shorthands mean the same."""
from __future__ import annotations

import math

import ConfigSpace as C
import numpy as np
from ConfigSpace import ConfigurationSpace
from ConfigSpace.api import Beta, Categorical, Float, Integer, Normal, Uniform

from rv.build import COND, make_hp
from rv.checks.p02 import illegal_value
from rv.extract import canon_hp, hp_spec, rep
from rv.hpgen import KINDS, some_values, wide_hp
from rv.model import HP, INTS, same
from rv.spec import legal_value, nice

RULE = "a state is a distinct (kind of hyperparameter, scale, what was wrong or which shorthand was used, ranges or choices) whose outcome was judged"
NEEDS = [
    "verdict:accepted", "verdict:refused", "verdict:kept", "verdict:same-definition", "verdict:equal", "verdict:same-samples",
    "broken:bounds-order", "broken:bounds-equal", "broken:log-bound", "broken:default", "broken:default-nan", "broken:duplicate", "broken:weights-length",
    "broken:weights-negative", "broken:weights-zero", "broken:weights-nan", "broken:weights-inf", "broken:sigma", "broken:alpha", "broken:beta", "broken:infinite",
    "broken:bound-nan", "broken:name", "broken:log-mu",
    "cond:EQ", "cond:NE", "cond:LT", "cond:GT", "cond:IN", "cond:unordered", "cond:self", "cond:children", "clause:EQ", "clause:IN",
    "short:float-range", "short:int-range", "short:choices", "short:constant", "short:hyperparameter", "short:Float", "short:Integer", "short:Categorical", "short:ordered",
    "short:bounds-list", "refused-shorthand", *("kind:" + k for k in KINDS),
]
ASSUMPTIONS = [
    "empty in-conditions and in-clauses, conjunctions of clauses without parts and relations of hyperparameters without an order are not claimed",
    "integer bounds given as floats are not claimed",
]


def tries(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def expected_default(d):
    return d["def"] if "def" in d else d.get("value")


def case_valid(ctx, rng):
    """Every consistent definition is accepted and reported as given."""
    d = wide_hp(rng, rng.choice(["h", "a b", "x:y", "µ", "_", "0"]))
    if rng.random() < 0.3:
        d["meta"] = rng.choice([{"a": 1}, {}, {"x": [1, {"y": None}]}])
    ctx.note(spec=d)
    ctx.event("kind:" + d["k"])
    hp, err = tries(lambda: make_hp(d))
    if not ctx.check(err is None, "accepted", lambda: f"{d}: {err!r}"):
        return
    got = hp_spec(hp)
    for key in ("lo", "hi", "mu", "sigma", "alpha", "beta"):
        if key in d:
            ctx.check(math.isclose(got[key], d[key], rel_tol=1e-9, abs_tol=1e-12), "kept", lambda: f"{key} {got[key]} of {d}")
    ctx.check(got["name"] == d["name"] and got["k"] == d["k"] and bool(got.get("log")) == bool(d.get("log")), "kept", lambda: f"{got} of {d}")
    for key in ("choices", "seq"):
        if key in d:
            ctx.check(len(got[key]) == len(d[key]) and all(same(a, b) and type(a) is type(b) for a, b in zip(got[key], d[key])), "kept", lambda: f"{got[key]} of {d}")
    if d["k"] == "const":
        ctx.check(same(hp.value, d["value"]), "kept", lambda: f"{hp.value!r} of {d}")
    if "def" in d:
        v = hp.default_value
        ok = math.isclose(v, d["def"], rel_tol=1e-9, abs_tol=1e-12) if HP(d).is_float else same(v, d["def"])
        ctx.check(ok, "kept", lambda: f"default {v!r} of {d}")
    if d["k"] == "cat":
        n = len(d["choices"])
        w = d.get("weights") or [1.0] * n
        p = [x / sum(w) for x in w]
        dens = [hp.pdf_values(np.array([c], dtype=object))[0] for c in d["choices"]]
        ctx.check(np.allclose(np.array(dens) / sum(dens), p, atol=1e-9), "kept", lambda: f"{dens} instead of {p}")
    if "meta" in d:
        ctx.check(hp.meta == d["meta"], "kept", lambda: f"meta {hp.meta}")
    ctx.check(hp.legal_value(hp.default_value), "default-legal", lambda: f"{hp.default_value} of {d}")
    ctx.state(d["k"], "valid", sorted(d), repr([d.get(x) for x in ("lo", "hi", "choices", "seq", "value", "log")]))
    ctx.sample(d)


def break_hp(rng, d):
    """One inconsistent variation: (what is wrong, definition)."""
    d = dict(d)
    k = d["k"]
    num = "lo" in d
    span = d["hi"] - d["lo"] if num else None
    kinds = ["name"]
    if num:
        kinds += ["bounds-order", "bounds-equal", "default", "default", "default", "bound-nan", "default-nan", "log-bound", "log-bound", "infinite"]
        if k in ("nint", "nfloat"):
            kinds += ["sigma"] * 3 + (["log-mu"] * 3 if d["log"] else [])
        if k in ("bint", "bfloat"):
            kinds += ["alpha", "beta"] * 2
    elif k in ("cat", "ord"):
        kinds += ["duplicate"] * 2 + ["default"] * 2
        if k == "cat":
            kinds += ["weights-length", "weights-negative", "weights-zero", "weights-nan", "weights-inf"]
    what = rng.choice(kinds)
    if what == "name":
        d["name"] = rng.choice([1, None, 2.5, b"x", ("a",)])
    elif what == "bounds-order":
        d["lo"], d["hi"] = d["hi"], d["lo"]
        d.pop("def", None)
    elif what == "bounds-equal":
        x = rng.choice(["lo", "hi"])
        d["lo"] = d["hi"] = d[x]
        if rng.random() < 0.5:
            d.pop("def", None)
        else:
            d["def"] = d[x]
        if "mu" in d:
            d["mu"] = d[x]
    elif what == "log-bound":
        d["log"] = True
        d["lo"] = rng.choice([0, -1, -3] if k in INTS else [0.0, -1e-3, -5.0])
        d["hi"] = max(d["hi"], 10)
        if "mu" in d:
            d["mu"] = max(d["mu"], 1)
        if "def" in d and rng.random() < 0.5:
            d.pop("def")
    elif what == "log-mu":
        d["mu"] = rng.choice([0, -1, -0.5])
    elif what == "default":
        if num:
            if k in INTS:
                d["def"] = rng.choice([d["lo"] - 1, d["hi"] + 1, d["lo"] - 7, d["hi"] + 1000])
                if max(abs(d["lo"]), abs(d["hi"])) < 10**11 and rng.random() < 0.3:
                    d["def"] = rng.choice([d["lo"] + 0.5, d["hi"] - 0.5])
            else:
                e = rng.choice([span, span * 0.01, max(span * 1e-4, abs(d["hi"]) * 1e-6)])
                d["def"] = rng.choice([d["lo"] - e, d["hi"] + e])
        else:
            seq = d["choices"] if k == "cat" else d["seq"]
            d["def"] = rng.choice(["not among them", 12345.678, 987654, seq, (1, 2)])
    elif what == "default-nan":
        d["def"] = math.nan
    elif what == "bound-nan":
        d[rng.choice(["lo", "hi"])] = math.nan
        d.pop("def", None)
    elif what == "infinite":
        x = rng.choice(["lo", "hi"])
        d[x] = -math.inf if x == "lo" else math.inf
        if rng.random() < 0.5:
            d.pop("def", None)
    elif what == "sigma":
        d["sigma"] = rng.choice([0, 0.0, -1, -0.5, -1e-3, math.nan])
    elif what in ("alpha", "beta"):
        d[what] = rng.choice([0, 0.5, -1, 0.99, -1e3, math.nan])
    elif what == "duplicate":
        key = "choices" if k == "cat" else "seq"
        d[key] = list(d[key])
        d[key].insert(rng.randrange(len(d[key]) + 1), rng.choice(d[key]))
        d.pop("weights", None)
        if k == "cat" and rng.random() < 0.5:
            d["weights"] = [1.0] * len(d[key])
    else:
        n = len(d["choices"])
        w = [rng.choice([0.1, 1, 2]) for _ in range(n)]
        if what == "weights-length":
            w = w + [1.0] if rng.random() < 0.5 or n == 1 else w[:-1]
        elif what == "weights-zero":
            w = [rng.choice([0, 0.0])] * n
        else:
            i = rng.randrange(n)
            w[i] = {"weights-negative": rng.choice([-1, -1e-6]), "weights-nan": math.nan, "weights-inf": math.inf}[what]
        d["weights"] = rng.choice([list, tuple])(w)
    return what, d


def case_broken(ctx, rng):
    d0 = wide_hp(rng)
    if d0["k"] == "const":
        return
    what, d = break_hp(rng, d0)
    ctx.note(spec=d)
    ctx.event("broken:" + what)
    hp, err = tries(lambda: make_hp(d))
    ctx.check(err is not None, "refused", lambda: f"{what} accepted: {d} gave {hp}")
    if what not in ("name", "infinite", "bound-nan", "default-nan") and d["k"] in INTS + ("ufloat", "nfloat", "bfloat"):
        # also when it is only a part of a space written in short form
        ctx.event("broken:repeat")
        err2 = tries(lambda: ConfigurationSpace({"x": make_hp(d)}))[1]
        ctx.check(err2 is not None, "refused", lambda: f"{what} accepted the second time: {d}")
    ctx.state(d["k"], what, d0.get("log"), repr([d0.get(x) for x in ("lo", "hi", "choices", "seq")]))


ORDERED = ("ord", "uint", "ufloat", "nint", "nfloat", "bint", "bfloat")


def case_values(ctx, rng):
    """Conditions and clauses take exactly the values their hyperparameter can take."""
    d = wide_hp(rng, "p")
    hp, child = make_hp(d), make_hp({"k": "uint", "name": "c", "lo": 0, "hi": 5, "log": False})
    ctx.note(spec=d)
    good = legal_value(rng, d)
    bad = illegal_value(rng, d)
    if d["k"] in INTS and isinstance(bad, float) and max(abs(d["lo"]), abs(d["hi"])) > 10**11:
        bad = d["hi"] + 1  # fractions are only told apart from integers in smaller ranges
    for op, cls in COND.items():
        if op in ("LT", "GT") and d["k"] not in ORDERED:
            c, err = tries(lambda: cls(child, hp, good))
            ctx.event("cond:unordered")
            ctx.check(err is not None, "refused", lambda: f"{op} on {d} accepted")
            continue
        ctx.event("cond:" + op)
        c, err = tries(lambda: cls(child, hp, good))
        if ctx.check(err is None, "accepted", lambda: f"{op} {good!r} on {d}: {err!r}"):
            ctx.check(c.child.name == "c" and c.parent.name == "p" and rep(c.value) == rep(good), "kept", lambda: f"{c}")
        _, err = tries(lambda: cls(child, hp, bad))
        ctx.check(err is not None, "refused", lambda: f"{op} {bad!r} on {d} accepted")
        _, err = tries(lambda: cls(hp, hp, good))
        ctx.event("cond:self")
        ctx.check(err is not None, "refused", lambda: f"{op} of {d} on itself accepted")
        _, err = tries(lambda: cls(hp, make_hp(d), good))
        ctx.check(err is not None, "refused", lambda: f"{op} of {d} on an equal one accepted")
    pool = []
    for v in some_values(rng, d, 30):
        if not any(rep(v) == rep(x) or v == x for x in pool):
            pool.append(v)
    vals = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3, 6, 12, 25])))
    mixed = [*vals, bad]
    rng.shuffle(mixed)
    for where, mk in (("cond:IN", lambda v: C.InCondition(child, hp, v)), ("clause:IN", lambda v: C.ForbiddenInClause(hp, v))):
        ctx.event(where)
        kind = rng.choice([list, tuple])
        c, err = tries(lambda: mk(kind(vals)))
        if ctx.check(err is None, "accepted", lambda: f"{where} {vals} on {d}: {err!r}"):
            ctx.check(sorted(map(rep, c.values)) == sorted(map(rep, vals)), "kept", lambda: f"{c.values} instead of {vals}")
        c, err = tries(lambda: mk(list(mixed)))
        ctx.check(err is not None, "refused", lambda: f"{where} {mixed} on {d} accepted: {c}")
    ctx.event("clause:EQ")
    c, err = tries(lambda: C.ForbiddenEqualsClause(hp, good))
    if ctx.check(err is None, "accepted", lambda: f"clause {good!r} on {d}: {err!r}"):
        ctx.check(c.hyperparameter.name == "p" and rep(c.value) == rep(good), "kept", lambda: f"{c}")
    c, err = tries(lambda: C.ForbiddenEqualsClause(hp, bad))
    ctx.check(err is not None, "refused", lambda: f"clause {bad!r} on {d} accepted")
    # a conjunction speaks about one child
    other = make_hp({"k": "uint", "name": "e", "lo": 0, "hi": 5, "log": False})
    cls = rng.choice([C.AndConjunction, C.OrConjunction])
    q = make_hp({"k": "cat", "name": "q", "choices": ["u", "v"]})
    parts = [C.EqualsCondition(child, hp, good), C.EqualsCondition(child, q, "u"), C.EqualsCondition(other, q, "v")]
    ctx.event("cond:children")
    c, err = tries(lambda: cls(*parts[:2]))
    ctx.check(err is None, "accepted", lambda: f"conjunction: {err!r}")
    rng.shuffle(parts)
    c, err = tries(lambda: cls(*parts))
    ctx.check(err is not None, "refused", lambda: f"conjunction over two children accepted: {c}")
    twin = make_hp({"k": "uint", "name": "c", "lo": 0, "hi": rng.choice([4, 6, 50]), "log": False})
    parts = [C.EqualsCondition(child, q, "u"), C.EqualsCondition(twin, q, "v")]
    rng.shuffle(parts)
    c, err = tries(lambda: cls(*parts))
    ctx.check(err is not None, "refused", lambda: f"conjunction over two different children of one name accepted: {c}")
    ctx.state(d["k"], "values", repr(good), repr(bad), d.get("log"))


def same_hp(ctx, rng, short, explicit, info):
    ctx.check(type(short) is type(explicit), "same-definition", lambda: f"{info}: {type(short)} instead of {type(explicit)}")
    a, b = canon_hp(hp_spec(short)), canon_hp(hp_spec(explicit))
    ctx.check(a == b, "same-definition", lambda: f"{info}: {a} instead of {b}")
    ctx.check(short.meta == explicit.meta, "same-definition", lambda: f"{info}: meta {short.meta} {explicit.meta}")
    ctx.check(short == explicit and explicit == short, "equal", lambda: f"{info}: {short} != {explicit}")
    s = rng.randrange(2**31)
    x, y = (list(h.sample_value(20, seed=np.random.RandomState(s))) for h in (short, explicit))
    ctx.check(all(same(u, v) for u, v in zip(x, y)) and len(x) == len(y), "same-samples", lambda: f"{info}: {x} {y}")


def shorthand(rng, d):
    """Definition in short form, or None."""
    k = d["k"]
    if k == "ufloat" and not d["log"] and "def" not in d:
        return "float-range", (float(d["lo"]), rng.choice([float, float])(d["hi"]))
    if k == "uint" and not d["log"] and "def" not in d:
        return "int-range", (d["lo"], d["hi"])
    if k == "cat" and not d.get("weights") and "def" not in d:
        return "choices", list(d["choices"])
    if k == "const":
        return "constant", d["value"]
    return "hyperparameter", None


def case_dict(ctx, rng):
    """A space written as a mapping."""
    n = rng.choice([1, 2, 3, 5])
    names = rng.sample(["a", "b", "lr", "x:y", "Z", "0", "depth", "µ"], n)
    defs = []
    for nm in names:
        d = wide_hp(rng, nm)
        if rng.random() < 0.7:
            for key in ("def", "weights"):
                d.pop(key, None)
            if d["k"] in ("uint", "ufloat"):
                d["log"] = False
        defs.append(d)
    ctx.note(spec=defs)
    short = {}
    for d in defs:
        kind, s = shorthand(rng, d)
        ctx.event("short:" + kind)
        ctx.state(d["k"], kind, repr(s))
        short[d["name"]] = make_hp(d) if kind == "hyperparameter" else s
    explicit = ConfigurationSpace(seed=5)
    explicit.add([make_hp(d) for d in defs])
    how = rng.randrange(4)
    if how == 0:
        cs = ConfigurationSpace(short, seed=5)
    elif how == 1:
        cs = ConfigurationSpace(space=short, seed=5)
    elif how == 2:
        cs = ConfigurationSpace(space=dict(reversed(list(short.items()))), seed=5)
    else:
        cs = ConfigurationSpace(space=[make_hp(d) for d in defs], seed=5)
    ctx.check(list(cs) == list(explicit), "same-names", lambda: f"{list(cs)} {list(explicit)}")
    for nm in names:
        same_hp(ctx, rng, cs[nm], explicit[nm], f"{short[nm]!r}")
    ctx.check(cs == explicit and explicit == cs, "equal", lambda: f"{cs}\n{explicit}")
    a, b = (dict(s.sample_configuration()) for s in (cs, explicit))
    ctx.check(all(same(a[x], b[x]) for x in b) and list(a) == list(b), "same-samples", lambda: f"{a} {b}")


def case_short(ctx, rng):
    """The short constructors."""
    d = wide_hp(rng, "h", [k for k in KINDS if k != "const"])
    if rng.random() < 0.3:
        d["meta"] = rng.choice([{"a": 1}, {"x": [1]}])
    ctx.note(spec=d)
    explicit = make_hp(d)
    kw = {}
    if "def" in d:
        kw["default"] = d["def"]
    if "meta" in d:
        kw["meta"] = d["meta"]
    if d["k"] == "cat":
        ctx.event("short:Categorical")
        items = rng.choice([list, tuple])(d["choices"])
        if d.get("weights"):
            kw["weights"] = d["weights"]
        short = Categorical("h", items, **kw)
    elif d["k"] == "ord":
        ctx.event("short:ordered")
        short = Categorical("h", rng.choice([list, tuple])(d["seq"]), ordered=True, **kw)
        bad = tries(lambda: Categorical("h", list(d["seq"]), ordered=True, weights=[1.0] * len(d["seq"])))[1]
        ctx.check(bad is not None, "refused", "weights on an ordered categorical")
    else:
        mk, nm = (Integer, "Integer") if d["k"] in INTS else (Float, "Float")
        ctx.event("short:" + nm)
        if d["log"] or rng.random() < 0.5:
            kw["log"] = d["log"]
        if d["k"][0] == "u":
            if rng.random() < 0.5:
                kw["distribution"] = Uniform()
        elif d["k"][0] == "n":
            kw["distribution"] = Normal(d["mu"], d["sigma"])
        else:
            kw["distribution"] = Beta(d["alpha"], d["beta"])
        b = (d["lo"], d["hi"])
        short = mk("h", b if rng.random() < 0.5 else list(b), **kw) if rng.random() < 0.5 else mk("h", bounds=b, **kw)
        r = {"distribution": kw.get("distribution", Uniform())}
        bad = tries(lambda: mk("h", (d["hi"], d["lo"]), **r))[1]
        ctx.check(bad is not None, "refused", lambda: f"{nm} with bounds {b[::-1]}")
        e = 1 if nm == "Integer" else max((d["hi"] - d["lo"]) * 0.01, abs(d["hi"]) * 1e-6)
        for v in (d["lo"] - e, d["hi"] + e):
            bad = tries(lambda: mk("h", b, **(kw | {"default": v})))[1]
            ctx.check(bad is not None, "refused", lambda: f"{nm} {b} default {v}")
    same_hp(ctx, rng, short, explicit, f"{d}")
    ctx.state(d["k"], "short", sorted(kw), repr([d.get(x) for x in ("lo", "hi", "choices", "seq", "mu", "alpha")]))


def case_more(ctx, rng):
    """A list of ranges, and short forms that mean nothing."""
    n = rng.choice([1, 2, 5, 11])
    bounds = []
    for _ in range(n):
        lo = nice(rng.uniform(-50, 50), 3)
        bounds.append((lo, nice(lo + rng.choice([0.5, 2.0, 100.0]), 6)))
    ctx.event("short:bounds-list")
    cs = ConfigurationSpace(seed=1)
    cs.generate_all_continuous_from_bounds([list(b) for b in bounds] if rng.random() < 0.5 else bounds)
    ctx.check(sorted(cs) == sorted(f"x{i}" for i in range(n)), "same-names", lambda: f"{list(cs)}")
    for i, (lo, hi) in enumerate(bounds):
        same_hp(ctx, rng, cs[f"x{i}"], make_hp({"k": "ufloat", "name": f"x{i}", "lo": lo, "hi": hi, "log": False}), f"bounds {lo, hi}")
    ctx.state("bounds", bounds)
    bad = rng.choice([(3, 1), (2.0, 1.0), (1, 2, 3), (1,), [], ["a", "a"], (5, 5), [1, 1.0], (0.5, 0.5)])
    ctx.event("refused-shorthand")
    ok = {"ok": (0, 1)}
    for sp in ({"h": bad, **ok}, {**ok, "h": bad}):
        c, err = tries(lambda: ConfigurationSpace(sp))
        ctx.check(err is not None, "refused", lambda: f"{bad!r} accepted: {c}")


QUICK_TIMES = 5  # the quick tier runs the first numbers below this many times over
CASES = [
    ("valid", case_valid, 400, 5000),
    ("broken", case_broken, 600, 8000),
    ("values", case_values, 200, 2500),
    ("dict", case_dict, 100, 1500),
    ("short", case_short, 200, 3000),
    ("more", case_more, 15, 400),
]
