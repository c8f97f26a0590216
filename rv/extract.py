"""Reads a spec back out of a real space, through public attributes only."""
from __future__ import annotations

import ConfigSpace as C
from ConfigSpace.conditions import Conjunction

KIND = [
    (C.UniformFloatHyperparameter, "ufloat"),
    (C.NormalFloatHyperparameter, "nfloat"),
    (C.BetaFloatHyperparameter, "bfloat"),
    (C.UniformIntegerHyperparameter, "uint"),
    (C.NormalIntegerHyperparameter, "nint"),
    (C.BetaIntegerHyperparameter, "bint"),
    (C.CategoricalHyperparameter, "cat"),
    (C.OrdinalHyperparameter, "ord"),
    (C.Constant, "const"),
]


class Unsupported(Exception):
    pass


def hp_spec(hp):
    if type(hp).__module__ == "rv.custom":
        return hp.spec()
    for cls, k in KIND:
        if isinstance(hp, cls):
            break
    else:
        raise Unsupported(type(hp))
    d = {"k": k, "name": str(hp.name), "def": hp.default_value}
    if k == "cat":
        d["choices"] = list(hp.choices)
        w = getattr(hp, "weights", None)
        d["weights"] = None if w is None else list(w)
    elif k == "ord":
        d["seq"] = list(hp.sequence)
    elif k == "const":
        d["value"] = hp.value
    else:
        lo, hi = hp.lower, hp.upper
        if lo is None or hi is None:
            raise Unsupported("unbounded")
        d["lo"], d["hi"], d["log"] = lo, hi, bool(hp.log)
        if k in ("nfloat", "nint"):
            d["mu"], d["sigma"] = hp.mu, hp.sigma
        if k in ("bfloat", "bint"):
            d["alpha"], d["beta"] = hp.alpha, hp.beta
    return d


CONDS = [(C.EqualsCondition, "EQ"), (C.NotEqualsCondition, "NE"), (C.LessThanCondition, "LT"), (C.GreaterThanCondition, "GT")]
RELS = [(C.ForbiddenLessThanRelation, "RLT"), (C.ForbiddenEqualsRelation, "REQ"), (C.ForbiddenGreaterThanRelation, "RGT")]


def cond_spec(c):
    if isinstance(c, C.AndConjunction):
        return ("AND", [cond_spec(x) for x in c.components])
    if isinstance(c, C.OrConjunction):
        return ("OR", [cond_spec(x) for x in c.components])
    if isinstance(c, C.InCondition):
        return ("IN", str(c.child.name), str(c.parent.name), list(c.values))
    for cls, op in CONDS:
        if isinstance(c, cls):
            return (op, str(c.child.name), str(c.parent.name), c.value)
    raise Unsupported(type(c))


def forb_spec(f):
    if isinstance(f, C.ForbiddenAndConjunction):
        return ("AND", [forb_spec(x) for x in f.components])
    if isinstance(f, C.ForbiddenEqualsClause):
        return ("EQ", str(f.hyperparameter.name), f.value)
    if isinstance(f, C.ForbiddenInClause):
        return ("IN", str(f.hyperparameter.name), list(f.values))
    for cls, op in RELS:
        if isinstance(f, cls):
            return (op, str(f.left.name), str(f.right.name))
    raise Unsupported(type(f))


def spec_of(cs):
    return {
        "hps": [hp_spec(hp) for hp in cs.values()],
        "conds": [cond_spec(c) for c in cs.conditions],
        "forbs": [forb_spec(f) for f in cs.forbidden_clauses],
    }


def canon_cond(c):
    """Order independent form of a condition spec."""
    if c[0] in ("AND", "OR"):
        return (c[0], tuple(sorted((canon_cond(x) for x in c[1]), key=repr)))
    if c[0] == "IN":
        return ("IN", c[1], c[2], tuple(sorted(map(rep, c[3]))))
    return (c[0], c[1], c[2], rep(c[3]))


def canon_forb(f):
    if f[0] == "AND":
        return ("AND", tuple(sorted((canon_forb(x) for x in f[1]), key=repr)))
    if f[0] == "IN":
        return ("IN", f[1], tuple(sorted(map(rep, f[2]))))
    if f[0] == "EQ":
        return ("EQ", f[1], rep(f[2]))
    return f


def rep(v) -> str:
    """Text of a value, the same for numpy and plain ones and for 1 and 1.0."""
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return repr(v)
    return repr(float(v)) if abs(v) < 2**53 else repr(v)


def canon_hp(d):
    out = dict(d)
    for key in ("def", "value", "lo", "hi", "mu", "sigma", "alpha", "beta"):
        if key in out:
            out[key] = rep(out[key])
    for key in ("choices", "seq"):
        if key in out:
            out[key] = tuple(rep(v) for v in out[key])
    if out.get("weights") is not None:
        w = [float(x) for x in out["weights"]]
        t = sum(w)
        out["weights"] = tuple(round(x / t, 9) for x in w)
    elif out["k"] == "cat":
        n = len(out["choices"])
        out["weights"] = tuple(round(1 / n, 9) for _ in range(n))
    out["log"] = bool(out.get("log"))
    if "own" in out:
        out["own"] = repr(out["own"])
    out.pop("meta", None)
    return tuple(sorted(out.items()))


def canon(spec):
    """Order independent form of a spec, for comparing what two spaces contain."""
    return (
        tuple(sorted(canon_hp(d) for d in spec["hps"])),
        tuple(sorted(map(canon_cond, spec["conds"]), key=repr)),
        tuple(sorted(map(canon_forb, spec["forbs"]), key=repr)),
    )


def canon_of(cs):
    return canon(spec_of(cs))
