"""Random specs of configuration spaces (plain data, written out in replay files)."""
from __future__ import annotations

import math

from rv.model import FLOATS, INTS, NUM, HP, Model, Undecided, child_of, index_in, same

WORDS = ["alpha", "beta", "gamma", "delta", "rbf", "poly", "adam", "sgd", "relu", "tanh",
         "low", "mid", "high", "x1", "x2", "none", "yes", "no", "A", "B", "C", "D E", "ü"]


def nice(x: float, digits: int = 6) -> float:
    """Round to few significant decimals, such that 13 decimal rounding is harmless."""
    return float(f"{x:.{digits}g}")


def gen_choices(rng, n, kinds=None):
    kind = rng.choice(kinds or ["str", "str", "str", "int", "float", "bool", "mixed"])
    if kind == "bool":
        return rng.choice([[True, False], [False, True]])
    if kind == "str":
        out = rng.sample(WORDS, min(n, len(WORDS)))
        while len(out) < n:
            w = "w%d" % len(out)
            out.append(w)
        return out
    if kind == "int":
        return rng.sample(range(-20, 60), n) if n <= 60 else rng.sample(range(10 * n), n)
    if kind == "float":
        return [x / 4 for x in rng.sample(range(-40, 80), n)] if n <= 80 else [x / 4 for x in rng.sample(range(10 * n), n)]
    pool = [None, True, "auto", "None", "1", 2, 3, 0.5, 7.25, -4, "true", "sqrt", "b"]
    return rng.sample(pool, min(n, len(pool)))


def gen_range(rng, integer: bool, log: bool, small: bool = False):
    if integer:
        if log:
            lo = rng.choice([1, 1, 2, 3, 10, 17])
            hi = lo + rng.choice([1, 2, 3, 5, 9, 20] if small else [1, 2, 3, 5, 9, 20, 100, 1000, 30000])
        else:
            lo = rng.choice([0, 0, 1, -3, -10, 5, 100, -1000])
            hi = lo + rng.choice([1, 2, 3, 4, 7, 10, 15] if small else [1, 2, 3, 4, 7, 10, 40, 99, 100, 500, 10000])
        return lo, hi
    if log:
        lo = rng.choice([1e-4, 1e-3, 0.01, 0.5, 1.0, 2.0, 10.0])
        hi = nice(lo * rng.choice([1.5, 2, 10, 100, 10000]))
    else:
        lo = rng.choice([0.0, 0.0, -1.0, 1.0, -5.5, 0.1, 100.0, -1000.0])
        hi = nice(lo + rng.choice([0.001, 0.5, 1.0, 2.0, 10.0, 33.3, 1000.0]))
    return lo, hi


def legal_value(rng, d):
    """A random nice legal value."""
    hp = HP(d)
    if hp.choices is not None:
        return rng.choice(hp.choices)
    if hp.is_int:
        r = rng.random()
        if r < 0.2:
            return rng.choice([hp.lo, hp.hi])
        return rng.randint(hp.lo, hp.hi)
    r = rng.random()
    if r < 0.1:
        return hp.lo
    if r < 0.2:
        return hp.hi
    if hp.log:
        v = math.exp(rng.uniform(math.log(hp.lo), math.log(hp.hi)))
    else:
        v = rng.uniform(hp.lo, hp.hi)
    return min(max(nice(v), hp.lo), hp.hi)


def interior_value(rng, d):
    hp = HP(d)
    if hp.choices is not None or hp.is_int:
        return legal_value(rng, d)
    x = rng.uniform(0.1, 0.9)
    return min(max(nice(hp.unvec(x), 4), hp.lo), hp.hi)


def gen_hp(rng, name, kinds=None, small=False, meta=False):
    k = rng.choice(kinds or ["cat", "cat", "cat", "ord", "uint", "uint", "ufloat", "ufloat",
                             "const", "nint", "nfloat", "bint", "bfloat"])
    d = {"k": k, "name": name}
    if k == "cat":
        n = rng.choice([1, 2, 2, 3, 3, 4, 5] if small else [1, 2, 2, 3, 3, 4, 5, 7, 12])
        d["choices"] = gen_choices(rng, n)
        if rng.random() < 0.3:
            w = [rng.choice([0.1, 0.3, 1, 2, 5, 0.5, 1 / 3, round(rng.uniform(0.1, 5), 9)]) for _ in d["choices"]]
            if len(w) > 1 and rng.random() < 0.3:
                w[rng.randrange(len(w))] = 0.0
            d["weights"] = w if sum(w) > 0 else [1.0] * len(w)
        if rng.random() < 0.5:
            d["def"] = rng.choice(d["choices"])
    elif k == "ord":
        n = rng.choice([1, 2, 3, 3, 4, 5] if small else [1, 2, 3, 4, 5, 8])
        d["seq"] = gen_choices(rng, n, ["str", "int", "float", "mixed"])
        if rng.random() < 0.5:
            d["def"] = rng.choice(d["seq"])
    elif k == "const":
        d["value"] = rng.choice([1, 0, 2.5, "c", "const value", True, None, -7, "1", (1, 2)])
        if isinstance(d["value"], tuple):
            d["value"] = 42
        if d["value"] is None:
            d["value"] = "None"
    else:
        integer = k in INTS
        d["log"] = rng.random() < 0.3
        d["lo"], d["hi"] = gen_range(rng, integer, d["log"], small)
        lo, hi = d["lo"], d["hi"]
        if k in ("nint", "nfloat"):
            mu = rng.uniform(lo, hi)
            d["mu"] = int(round(mu)) if integer else min(max(nice(mu, 4), lo), hi)
            d["sigma"] = nice(max((hi - lo) * rng.choice([0.1, 0.3, 1.0, 3.0]), 1e-3), 3)
            if rng.random() < 0.15:
                mean_outside(rng, d)
            if d["log"] and abs(lo + d["sigma"] - 1) < 1e-6:
                d["sigma"] *= 2  # no spread at all, see known finding log-normal-zero-spread
        if k in ("bint", "bfloat"):
            d["alpha"] = rng.choice([1, 1.5, 2, 3, 8, round(rng.uniform(1, 6), 7)])
            d["beta"] = rng.choice([1, 1.5, 2, 3, 8, round(rng.uniform(1, 6), 7)])
        if rng.random() < 0.5:
            d["def"] = legal_value(rng, d)
    if meta and rng.random() < 0.4:
        d["meta"] = rng.choice([{"use": "x"}, {"a": 1, "b": [1, 2]}, {}, {"k": None}] + ([{1: "one", None: 2}, {"t": (1, 2)}] if meta == "odd" else []))
    return d


def mean_outside(rng, d):
    """Move the mean of a normal prior out of the bounds."""
    lo, hi = d["lo"], d["hi"]
    d["sigma"] = nice(max((hi - lo) * rng.choice([0.3, 1.0, 3.0]), 1e-3), 3)
    off = (hi - lo) * rng.choice([0.05, 0.3])
    if rng.random() < 0.5 or d["log"]:
        d["mu"] = nice(hi + off, 4) if d["k"] == "nfloat" else hi + int(off) + 1
        d["mu"] = max(d["mu"], hi)
    else:
        d["mu"] = min(nice(lo - off, 4), lo) if d["k"] == "nfloat" else lo - int(off) - 1


ODD_NAMES = [
    "a", "a | b", "b | c", "c", "b", "a | b | c", "a == 1", "a && b", "a || b", "(a", "b)", "a < b", "Forbidden: a", "a in {1}",
    "", " ", "a ", " a", "a:b", "a:", ":a", ":", "0", "1", "-1", "None", "nan", "True", "name", "values", "'q'", '"q"', "{a}", "%s", "a\\", "a\n", "é", "A", "x" * 80,
    "a&&b", "a<b", "a>", "in", "log", "integer", "a#b", "a,b", "a=b", "!=", "a;b", "@", "1e5", "+1", "a?", "*", "i", "l",
]


def gen_names(rng, n):
    style = rng.random()
    if style < 0.4:
        pool = ["hp%d" % i for i in range(n)]
    elif style < 0.65:
        pool = [chr(ord("a") + i) if i < 26 else "v%d" % i for i in range(n)]
    elif style < 0.9 or n > len(ODD_NAMES):
        base = ["learning_rate", "kernel", "C", "gamma:rbf", "n estimators", "__choice__", "A", "a", "Z",
                "lr", "depth", "x.y", "μ", "opt", "layers", "drop", "batch"]
        pool = base[:n] + ["p%d" % i for i in range(max(0, n - len(base)))]
    else:
        # names that look like what is printed, or like each other
        pool = rng.sample(ODD_NAMES, n) if rng.random() < 0.5 else ODD_NAMES[:n]
    rng.shuffle(pool)
    return pool


def map_values(spec, change):
    """The same space with other values: change(name, value) -> value."""

    def cond(c):
        if c[0] in ("AND", "OR"):
            return (c[0], [cond(x) for x in c[1]])
        return (*c[:3], [change(c[2], v) for v in c[3]] if c[0] == "IN" else change(c[2], c[3]))

    def forb(f):
        if f[0] == "AND":
            return (f[0], [forb(x) for x in f[1]])
        if f[0] == "IN":
            return (f[0], f[1], [change(f[1], v) for v in f[2]])
        return (f[0], f[1], change(f[1], f[2])) if f[0] == "EQ" else f

    def hp(d):
        d = dict(d)
        for k in ("choices", "seq"):
            if k in d:
                d[k] = [change(d["name"], v) for v in d[k]]
        for k in ("def", "value"):
            if k in d:
                d[k] = change(d["name"], d[k])
        return d

    return {"hps": [hp(d) for d in spec["hps"]], "conds": [cond(c) for c in spec["conds"]], "forbs": [forb(f) for f in spec["forbs"]]}


def gen_cond(rng, child, d):
    """A single comparison on parent definition `d`."""
    hp = HP(d)
    ops = ["EQ", "NE", "IN"]
    if hp.orderable and hp.size > 1:
        ops += ["LT", "GT", "LT", "GT"]
    if hp.is_float:
        ops = ["LT", "GT", "LT", "GT", "NE", "EQ", "IN"] if rng.random() < 0.2 else ["LT", "GT"]
    if hp.size == 1:
        ops = ["EQ", "IN"]
    op = rng.choice(ops)
    if op == "IN":
        m = rng.choice([1, 2, 2, 3])
        vals = []
        for _ in range(m):
            v = legal_value(rng, d)
            if index_in(v, vals) < 0:
                vals.append(v)
        return ("IN", child, d["name"], vals)
    v = interior_value(rng, d) if hp.is_float else legal_value(rng, d)
    if op in ("LT", "GT") and hp.is_int and rng.random() < 0.6:
        v = rng.choice([hp.lo, hp.hi]) if rng.random() < 0.2 else rng.randint(hp.lo, hp.hi)
    return (op, child, d["name"], v)


def gen_full_cond(rng, child, cands, depth=0):
    """Condition for `child` with parents from `cands` (definitions)."""
    r = rng.random()
    if r < (0.55 if depth == 0 else 0.75) or depth >= 2:
        # one comparison, preferring parents which can vary
        vary = [d for d in cands if HP(d).size > 1] or cands
        return gen_cond(rng, child, rng.choice(vary))
    op = rng.choice(["AND", "OR"])
    n = rng.choice([2, 2, 3])
    return (op, [gen_full_cond(rng, child, cands, depth + 1) for _ in range(n)])


def rename_child(c, child):
    if c[0] in ("AND", "OR"):
        return (c[0], [rename_child(x, child) for x in c[1]])
    return (c[0], child, *c[2:])


def _names(c):
    if c[0] in ("AND", "OR"):
        return set().union(*[_names(x) for x in c[1]])
    return {c[2]}


def num_valued(d) -> bool:
    hp = HP(d)
    if hp.choices is None:
        return True
    return all(isinstance(c, (int, float)) and not isinstance(c, bool) for c in hp.choices)


def gen_forb(rng, hps, depth=0):
    r = rng.random()
    nums = [d for d in hps if num_valued(d)]
    if r < 0.2 and len(nums) >= 2:
        a, b = rng.sample(nums, 2)
        return (rng.choice(["RLT", "REQ", "RGT"]), a["name"], b["name"])
    fin = [d for d in hps if HP(d).k not in FLOATS] or hps
    if r < 0.35:
        d = rng.choice(fin)
        return ("EQ", d["name"], legal_value(rng, d))
    if r < 0.5 or depth >= 2:
        d = rng.choice(fin)
        vals = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            v = legal_value(rng, d)
            if index_in(v, vals) < 0:
                vals.append(v)
        return ("IN", d["name"], vals)
    n = rng.choice([1, 2, 2, 2, 3]) if depth == 0 else 2
    ds = rng.sample(fin, min(n, len(fin)))
    parts = []
    for d in ds:
        q = rng.random()
        if q < 0.65:
            parts.append(("EQ", d["name"], legal_value(rng, d)))
        elif q < 0.85:
            parts.append(gen_forb(rng, [d], 2))
        else:
            parts.append(gen_forb(rng, hps, depth + 1))
    return ("AND", parts)


def gen_forb_group(rng, hps):
    """Several conjunctions which share all but their last part."""
    fin = [d for d in hps if 2 <= HP(d).size <= 50]
    if len(fin) < 2:
        return []
    m = rng.choice([2, 2, 3]) if len(fin) > 2 else 2
    ds = rng.sample(fin, m)
    head = [("EQ", d["name"], legal_value(rng, d)) for d in ds[:-1]]
    out = []
    for _ in range(rng.choice([2, 3, 4])):
        f = ("AND", [*head, ("EQ", ds[-1]["name"], legal_value(rng, ds[-1]))])
        if rng.random() < 0.3:
            parts = list(f[1])
            rng.shuffle(parts)
            f = ("AND", parts)
        if not any(f == o for o in out):
            out.append(f)
    return out


def defaults_of(spec, real=None):
    """name -> default. Derived defaults come from the real objects (checked in P03)."""
    return {d["name"]: d["def"] if "def" in d else (d["value"] if d["k"] == "const" else real[d["name"]])
            for d in spec["hps"]}


def random_values(rng, model, defs, uniform=True):
    """A random assignment of exactly the active hyperparameters (may be forbidden)."""
    live = {}
    for n in model.order:
        if n not in model.cond or model.holds(model.cond[n], live):
            live[n] = legal_value(rng, defs[n])
    return live


def prior_pools(rng, hps, n=40):
    """Values drawn from each prior; only used to choose clauses that leave room."""
    import numpy as np

    from rv.build import make_hp

    return {d["name"]: list(make_hp(d).sample_value(n, seed=np.random.RandomState(rng.randrange(2**31)))) for d in hps}


def acceptance(rng, m, pools, n=60):
    """Share of assignments drawn from the priors which are not forbidden."""
    ok = 0
    for _ in range(n):
        v = {}
        for nm in m.order:
            if nm not in m.cond or m.holds(m.cond[nm], v):
                v[nm] = rng.choice(pools[nm])
        try:
            ok += not m.forbidden(v)
        except Undecided:
            pass
    return ok / n


def gen_spec(rng, n=None, kinds=None, p_cond=None, n_forb=None, small=False, meta=False,
             max_size=None, accept=0.15, own=0.0, hard=False):
    """A random spec. Its default configuration is not forbidden and random
    configurations are accepted with a probability of at least about `accept`.
    With `hard`: values, bounds and clauses which are easily mistaken for each other,
    long lists of values and clauses of many parts."""
    from rv.build import make_hp

    n = n or rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10])
    p_cond = rng.choice([0.0, 0.3, 0.6, 0.9]) if p_cond is None else p_cond
    names = gen_names(rng, n)
    if hard:
        names = rng.choice([names, twin_names(rng, n)])
        hps = []
        for nm in names:
            hps.append(hard_hp(rng, nm, hps))
    else:
        hps = [gen_hp(rng, nm, kinds, small, meta) for nm in names]
    if own:
        from rv.custom import own_variant

        hps = [own_variant(rng, d) if rng.random() < own else d for d in hps]
    defs = {d["name"]: d for d in hps}
    conds = []
    for i in range(1, n):
        if rng.random() >= p_cond:
            continue
        child = names[i]
        cands = hps[max(0, i - rng.choice([1, 2, 3, i])):i]
        prev = [c for c in conds if not _names(c) - set(names[:i])]
        if prev and rng.random() < (0.5 if hard else 0.3):
            c = rename_child(rng.choice(prev), child)
            if hard and rng.random() < 0.6:
                c = mistake(rng, c, hps[:i])
            elif rng.random() < 0.2 and c[0] in ("AND", "OR"):
                c = ("OR" if c[0] == "AND" else "AND", c[1])  # twin with the other connective
        elif hard and rng.random() < 0.5:
            c = long_cond(rng, child, cands)
        else:
            c = gen_full_cond(rng, child, cands)
        conds.append(c)

    spec = {"hps": hps, "conds": conds, "forbs": []}
    n_forb = rng.choice([0, 0, 1, 2, 4]) if n_forb is None else n_forb
    cand = []
    for _ in range(n_forb):
        if rng.random() < 0.25:
            cand += gen_forb_group(rng, hps)
        elif hard and rng.random() < 0.6:
            cand.append(long_forb(rng, hps))
        else:
            cand.append(gen_forb(rng, hps))
    real = {d["name"]: make_hp(d).default_value for d in hps}
    dflt = defaults_of(spec, real)
    pools = prior_pools(rng, hps) if cand else None
    for f in cand:
        trial = {"hps": hps, "conds": conds, "forbs": [*spec["forbs"], f]}
        m = Model(trial)
        try:
            if m.forbidden(m.default(dflt)):
                continue
            if acceptance(rng, m, pools) < accept:
                continue
        except Undecided:
            continue
        spec = trial
    return spec


def large(rng):
    """Arguments of gen_spec for spaces far larger than the usual ones."""
    return {"n": rng.choice([20, 35, 60, 90]), "n_forb": rng.choice([0, 4, 10]), "p_cond": rng.choice([0.3, 0.7, 0.95])}


def describe(spec):
    return {
        "n": len(spec["hps"]),
        "kinds": sorted(d["k"] for d in spec["hps"]),
        "conds": [shape(c) for c in spec["conds"]],
        "forbs": [fshape(f) for f in spec["forbs"]],
    }


def shape(c):
    if c[0] in ("AND", "OR"):
        return c[0] + "(" + ",".join(shape(x) for x in c[1]) + ")"
    return c[0]


def fshape(f):
    if f[0] == "AND":
        return "AND(" + ",".join(fshape(x) for x in f[1]) + ")"
    return f[0]


LOOKALIKES = [
    ["1", 1, "1.0", " 1", "1 ", "+1", "01"],
    [2, "2", 2.5, "2.5", "2.50", None, "None", "none", "null"],
    [True, "True", "true", "TRUE", False, "False", "false"],
    ["a", "A", "a ", " a", "aa", "Aa", "aA", "b", "B"],
    ["x_1", "x-1", "x 1", "x.1", "X_1", "x__1", "x1"],
    [1, 10, 100, 1000, -1, -10, -100, 11, 101],
    [0.1, 0.11, 0.111, 0.1111, 0.10000001, 0.1000001, 0.09999999],
    [1e-07, 1e-08, 1.1e-08, 0.0, 1e-09, 2e-08],
    ["a", "a\0", "a\0\0", "\0", "", "b"],
    [2**63, -1, 2**63 + 1, 5, 2**53 + 1, 2**53, 2**64, -(2**63) - 1],
    [10000000, 10000001, 10000002, 10000000.5, 16777216, 16777217],
]


def twin_names(rng, n):
    """Names which differ in case, blanks or their end only."""
    base = ["lr", "LR", "Lr", "lR", "lr ", " lr", "lr1", "lr10", "lr2", "lr_", "lr-", "lr.", "l_r", "l r"]
    out = rng.sample(base, min(n, len(base)))
    return out + ["lr%d" % (100 + i) for i in range(n - len(out))]


def hard_hp(rng, name, before):
    nums = [d for d in before if d["k"] in INTS + FLOATS]
    r = rng.random()
    if r < 0.25:
        pool = rng.choice(LOOKALIKES)
        vals = rng.sample(pool, rng.randint(2, len(pool)))
        d = {"k": "cat", "name": name, "choices": vals} if rng.random() < 0.6 else {"k": "ord", "name": name, "seq": vals}
    elif r < 0.45:
        n = rng.choice([20, 33, 64, 70, 130, 300])
        vals = gen_choices(rng, n, ["str", "int", "float"])
        d = {"k": "cat", "name": name, "choices": vals} if rng.random() < 0.6 else {"k": "ord", "name": name, "seq": vals}
    elif r < 0.75 and nums:
        # bounds shared with another one
        o = rng.choice(nums)
        lo, hi = o["lo"], o["hi"]
        k = rng.choice(["uint", "ufloat"]) if float(lo).is_integer() and float(hi).is_integer() else "ufloat"
        w = hi - lo
        side = rng.choice(["lo", "hi", "both"])
        if side == "lo":
            hi = hi + rng.choice([1, 2, 10])
        elif side == "hi":
            lo = lo - rng.choice([1, 2, 10]) if rng.random() < 0.6 else lo + (max(1, int(w) // 2) if w > 1 else w / 2)
        lo, hi = (int(lo), int(hi)) if k == "uint" else (nice(lo, 9), nice(hi, 9))
        if lo >= hi:
            lo = hi - 1
        d = {"k": k, "name": name, "lo": lo, "hi": hi, "log": lo > 0 and rng.random() < 0.5}
    elif r < 0.9:
        lo = rng.choice([0, 1, -5, 1000, 2])
        d = {"k": "uint", "name": name, "lo": lo, "hi": lo + rng.choice([10**5, 10**6, 10**7, 2**31]), "log": False}
    else:
        d = gen_hp(rng, name)
    if "def" not in d and rng.random() < 0.5:
        d["def"] = legal_value(rng, d) if d["k"] != "const" else d["value"]
    if d["k"] == "const":
        d.pop("def", None)
    return d


def close_value(rng, d, v):
    """Another value of `d` which is easily taken for `v`."""
    hp = HP(d)
    if hp.choices is not None:
        same = [c for c in hp.choices if str(c).strip().lower() == str(v).strip().lower() and (type(c), c) != (type(v), v)]
        return rng.choice(same) if same and rng.random() < 0.7 else rng.choice(hp.choices)
    if hp.is_int:
        return min(max(v + rng.choice([-1, 1, 1, 2]), hp.lo), hp.hi)
    w = (hp.hi - hp.lo) * rng.choice([1e-3, 1e-5, 1e-7])
    return round(min(max(v + rng.choice([-w, w]), hp.lo), hp.hi), 12)


def mistake(rng, c, hps):
    """The condition with one part changed to something similar."""
    if c[0] in ("AND", "OR"):
        parts = list(c[1])
        j = rng.randrange(len(parts))
        parts[j] = mistake(rng, parts[j], hps)
        return (c[0], parts)
    d = [x for x in hps if x["name"] == c[2]][0]
    if c[0] == "IN":
        vals = list(c[3])
        v = close_value(rng, d, vals[-1])
        vals = [*vals[:-1], v]
        return ("IN", c[1], c[2], [x for i, x in enumerate(vals) if index_in(x, vals) == i])
    r = rng.random()
    if r < 0.3:
        twins = [x for x in hps if x["name"] != d["name"] and x["name"].strip().lower() == d["name"].strip().lower()]
        for x in twins:
            try:
                if HP(x).legal(c[3]) and (HP(x).orderable or c[0] in ("EQ", "NE")):
                    return (c[0], c[1], x["name"], c[3])
            except Undecided:
                pass
    return (*c[:3], close_value(rng, d, c[3]))


def long_values(rng, d):
    hp = HP(d)
    vals = []
    want = rng.choice([2, 5, 12, 30, 80, 200])
    if hp.choices is not None:
        return rng.sample(list(hp.choices), min(want, max(1, hp.size - 1)))
    v = legal_value(rng, d)
    for _ in range(min(want, 40)):
        if index_in(v, vals) < 0:
            vals.append(v)
        v = close_value(rng, d, v) if rng.random() < 0.5 else legal_value(rng, d)
    return vals


def long_cond(rng, child, cands):
    fin = [d for d in cands if not HP(d).is_float and HP(d).size > 1] or cands
    d = rng.choice(fin)
    if rng.random() < 0.4:
        return ("IN", child, d["name"], long_values(rng, d))
    op = rng.choice(["AND", "OR"])
    parts = []
    for _ in range(rng.choice([3, 5, 7, 9, 12])):
        d = rng.choice(fin)
        v = legal_value(rng, d) if not parts or rng.random() < 0.5 or parts[-1][2] != d["name"] else close_value(rng, d, parts[-1][3])
        p = ("EQ" if op == "OR" else "NE", child, d["name"], v)
        if HP(d).size == 1 or HP(d).is_float:
            p = ("EQ", child, d["name"], v)
        if p not in parts:
            parts.append(p)
    return (op, parts) if len(parts) > 1 else parts[0]


def long_forb(rng, hps):
    fin = [d for d in hps if HP(d).k not in FLOATS and HP(d).size > 1] or hps
    nums = [d for d in hps if d["k"] in INTS + FLOATS]
    r = rng.random()
    if r < 0.3 and len(nums) >= 2:
        a, b = rng.sample(nums, 2)
        return (rng.choice(["RLT", "REQ", "RGT"]), a["name"], b["name"])
    if r < 0.6:
        d = rng.choice(fin)
        return ("IN", d["name"], long_values(rng, d))
    parts = []
    for d in rng.sample(hps, min(len(hps), rng.choice([2, 5, 6, 8]))):
        if d in fin and rng.random() < 0.7:
            parts.append(("IN", d["name"], long_values(rng, d)))
        elif d in fin:
            parts.append(("EQ", d["name"], legal_value(rng, d)))
        elif d in nums and len(nums) > 1:
            o = rng.choice([x for x in nums if x is not d])
            parts.append((rng.choice(["RLT", "RGT"]), d["name"], o["name"]))
    return ("AND", parts) if parts else ("EQ", hps[0]["name"], legal_value(rng, hps[0]))


def hard(rng):
    """Arguments of gen_spec for spaces whose parts are easily mistaken for each other."""
    return {"hard": True, "n": rng.choice([2, 3, 5, 8, 10]), "n_forb": rng.choice([0, 3, 8]), "p_cond": rng.choice([0.3, 0.8])}
