"""Other ways of giving the same values: numpy scalars, whole floats, other collections."""
from __future__ import annotations

from collections import OrderedDict, UserDict, deque
from types import MappingProxyType

import numpy as np
import ConfigSpace as C
from ConfigSpace import ConfigurationSpace

from rv.build import COND, REL
from rv.model import NUM

INT_TYPES = [np.int64, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint32, np.uint64]
FLOAT_TYPES = [np.float64, np.float64, np.float32, np.float16]


def scalar(rng, v, double=False):
    """The same value as a numpy scalar (or as it is), with `double` not in less than double precision."""
    if rng.random() < 0.25 or v is None:
        return v
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        t = rng.choice(INT_TYPES)
        return t(v) if np.iinfo(t).min <= v <= np.iinfo(t).max else v
    if isinstance(v, float):
        t = np.float64 if double else rng.choice(FLOAT_TYPES)
        with np.errstate(all="ignore"):
            return t(v) if float(t(v)) == v else v
    if isinstance(v, str):
        # numpy drops trailing NULs
        return np.str_(v) if str(np.str_(v)) == v else v
    return v


def number(rng, v, double=False):
    """The same number of a numeric hyperparameter."""
    if rng.random() < 0.3:
        if isinstance(v, int) and abs(v) < 2**53:
            v = float(v)
        elif isinstance(v, float) and v.is_integer() and abs(v) < 2**53:
            v = int(v)
    return scalar(rng, v, double)


def close(d):
    """Whether numbers among the choices are the same in less than double precision,
    in which numpy compares them with python numbers."""
    xs = [float(c) for c in d.get("choices", d.get("seq", ())) if isinstance(c, (int, float))]
    with np.errstate(all="ignore"):
        return len({float(np.float16(x)) for x in xs}) < len(set(xs))


def value(rng, d, v, double=False):
    double = double or close(d)
    return number(rng, v, double) if d["k"] in NUM else scalar(rng, v, double)


def is_range(xs):
    return all(type(x) is int for x in xs) and len(xs) > 0 and list(xs) == list(range(xs[0], xs[0] + len(xs)))


def array_of(xs):
    """A numpy array holding exactly these values, or None."""
    if len({type(x) for x in xs}) != 1 or xs[0] is None or isinstance(xs[0], (list, tuple)):
        return None
    a = np.array(xs)
    return a if [type(x) for x in a.tolist()] == [type(x) for x in xs] and a.tolist() == list(xs) else None


def collection(rng, xs, plain, ordered=True, ctx=None, kinds=()):
    """The values in another collection; `plain` holds the plain ones."""
    ways = ["list", "tuple", *kinds]
    if not ordered:
        ways += ["set", "frozenset", "dict-keys"]
    if is_range(plain):
        ways += ["range"] * 2
    a = array_of(plain)
    if a is None and "array" in ways:
        ways.remove("array")
    way = rng.choice(ways)
    if ctx is not None:
        ctx.event("collection:" + way)
    if way == "range":
        return range(plain[0], plain[0] + len(plain))
    if way == "array":
        return a
    fn = {"list": list, "tuple": tuple, "deque": deque, "set": set, "frozenset": frozenset, "iterator": iter, "dict-keys": lambda v: dict.fromkeys(v).keys()}
    return fn[way](xs)


def mapping(rng, values):
    """The same assignment as another mapping, in another order."""
    items = list(values.items())
    rng.shuffle(items)
    return rng.choice([dict, OrderedDict, lambda x: MappingProxyType(dict(x)), lambda x: UserDict(dict(x))])(items)


def hp(rng, d, ctx=None):
    k, kw = d["k"], {}
    n = np.str_(d["name"]) if rng.random() < 0.2 else d["name"]
    if "def" in d:
        kw["default_value"] = value(rng, d, d["def"])
    if "meta" in d:
        kw["meta"] = d["meta"]
    if k == "cat":
        w = d.get("weights")
        if w is not None:
            w = rng.choice([list, tuple])(number(rng, x) for x in w)
        ch = [value(rng, d, c) for c in d["choices"]]
        return C.CategoricalHyperparameter(n, collection(rng, ch, d["choices"], ctx=ctx, kinds=["array", "deque", "iterator"]), weights=w, **kw)
    if k == "ord":
        return C.OrdinalHyperparameter(n, collection(rng, [value(rng, d, c) for c in d["seq"]], d["seq"], ctx=ctx, kinds=["deque"]), **kw)
    if k == "const":
        return C.Constant(n, scalar(rng, d["value"]), **kw)
    log = bool(d.get("log"))
    kw["log"] = rng.choice([log, np.bool_(log), int(log)])
    b = [number(rng, d[x]) for x in ("lo", "hi")]
    if k in ("ufloat", "uint"):
        return (C.UniformFloatHyperparameter if k == "ufloat" else C.UniformIntegerHyperparameter)(n, *b, **kw)
    if k in ("nfloat", "nint"):
        return (C.NormalFloatHyperparameter if k == "nfloat" else C.NormalIntegerHyperparameter)(n, number(rng, d["mu"]), number(rng, d["sigma"]), *b, **kw)
    return (C.BetaFloatHyperparameter if k == "bfloat" else C.BetaIntegerHyperparameter)(n, number(rng, d["alpha"]), number(rng, d["beta"]), *b, **kw)


def cond(rng, c, hps, defs, ctx=None):
    if c[0] in ("AND", "OR"):
        return {"AND": C.AndConjunction, "OR": C.OrConjunction}[c[0]](*[cond(rng, x, hps, defs, ctx) for x in c[1]])
    d = defs[c[2]]
    if c[0] == "IN":
        return C.InCondition(hps[c[1]], hps[c[2]], collection(rng, [value(rng, d, v, True) for v in c[3]], c[3], False, ctx, ["array", "deque"]))
    return COND[c[0]](hps[c[1]], hps[c[2]], value(rng, d, c[3], True))


def forb(rng, f, hps, defs, ctx=None):
    if f[0] == "AND":
        return C.ForbiddenAndConjunction(*[forb(rng, x, hps, defs, ctx) for x in f[1]])
    if f[0] == "EQ":
        return C.ForbiddenEqualsClause(hps[f[1]], value(rng, defs[f[1]], f[2], True))
    if f[0] == "IN":
        return C.ForbiddenInClause(hps[f[1]], collection(rng, [value(rng, defs[f[1]], v, True) for v in f[2]], f[2], False, ctx, ["array", "deque", "iterator"]))
    return REL[f[0]](hps[f[1]], hps[f[2]])


def build(rng, spec, seed=None, name=None, ctx=None):
    """The space of a spec, its values and parts given in another way."""
    defs = {d["name"]: d for d in spec["hps"]}
    hps = {d["name"]: hp(rng, d, ctx) for d in spec["hps"]}
    conds = [cond(rng, c, hps, defs, ctx) for c in spec["conds"]]
    forbs = [forb(rng, f, hps, defs, ctx) for f in spec["forbs"]]
    seed = np.int64(seed) if rng.random() < 0.3 else seed
    hl = list(hps.values())
    way = rng.choice(["space-list", "space-tuple", "space-dict", "generator", "values", "nested", "varargs", "tuples"])
    if ctx is not None:
        ctx.event("added:" + way)
    if way.startswith("space-"):
        arg = {"list": hl, "tuple": tuple(hl), "dict": {h.name: h for h in hl}}[way[6:]]
        cs = ConfigurationSpace(arg, seed=seed) if name is None and rng.random() < 0.5 else ConfigurationSpace(name=name, seed=seed, space=arg)
        cs.add(conds, forbs)
        return cs
    cs = ConfigurationSpace(name=name, seed=seed)
    if way == "generator":
        cs.add(h for h in hl)
        cs.add(iter(conds), (f for f in forbs))
    elif way == "values":
        cs.add(hps.values(), deque(conds), forbs)
    elif way == "nested":
        cs.add([[hl, (conds, [])], [[forbs]]])
    elif way == "varargs":
        cs.add(*hl, *conds, *forbs)
    else:
        cs.add(tuple(hl))
        cs.add(tuple(conds), tuple(forbs))
    return cs
