"""Builds real objects from specs."""
from __future__ import annotations

import ConfigSpace as C
from ConfigSpace import ConfigurationSpace


def make_hp(d):
    if "own" in d:
        from rv.custom import make

        return make(d)
    k, kw = d["k"], {}
    if "def" in d:
        kw["default_value"] = d["def"]
    if "meta" in d:
        kw["meta"] = d["meta"]
    n = d["name"]
    if k == "cat":
        return C.CategoricalHyperparameter(n, list(d["choices"]), weights=d.get("weights"), **kw)
    if k == "ord":
        return C.OrdinalHyperparameter(n, list(d["seq"]), **kw)
    if k == "const":
        return C.Constant(n, d["value"], **kw)
    kw["log"] = bool(d.get("log"))
    if k == "ufloat":
        return C.UniformFloatHyperparameter(n, d["lo"], d["hi"], **kw)
    if k == "uint":
        return C.UniformIntegerHyperparameter(n, d["lo"], d["hi"], **kw)
    if k == "nfloat":
        return C.NormalFloatHyperparameter(n, d["mu"], d["sigma"], lower=d["lo"], upper=d["hi"], **kw)
    if k == "nint":
        return C.NormalIntegerHyperparameter(n, d["mu"], d["sigma"], lower=d["lo"], upper=d["hi"], **kw)
    if k == "bfloat":
        return C.BetaFloatHyperparameter(n, d["alpha"], d["beta"], lower=d["lo"], upper=d["hi"], **kw)
    if k == "bint":
        return C.BetaIntegerHyperparameter(n, d["alpha"], d["beta"], lower=d["lo"], upper=d["hi"], **kw)
    raise KeyError(k)


COND = {"EQ": C.EqualsCondition, "NE": C.NotEqualsCondition, "LT": C.LessThanCondition, "GT": C.GreaterThanCondition}
REL = {"RLT": C.ForbiddenLessThanRelation, "REQ": C.ForbiddenEqualsRelation, "RGT": C.ForbiddenGreaterThanRelation}


def make_cond(c, hps):
    op = c[0]
    if op == "AND":
        return C.AndConjunction(*[make_cond(x, hps) for x in c[1]])
    if op == "OR":
        return C.OrConjunction(*[make_cond(x, hps) for x in c[1]])
    if op == "IN":
        return C.InCondition(hps[c[1]], hps[c[2]], list(c[3]))
    return COND[op](hps[c[1]], hps[c[2]], c[3])


def make_forb(f, hps):
    op = f[0]
    if op == "AND":
        return C.ForbiddenAndConjunction(*[make_forb(x, hps) for x in f[1]])
    if op == "EQ":
        return C.ForbiddenEqualsClause(hps[f[1]], f[2])
    if op == "IN":
        return C.ForbiddenInClause(hps[f[1]], list(f[2]))
    return REL[op](hps[f[1]], hps[f[2]])


def parts(spec):
    hps = {d["name"]: make_hp(d) for d in spec["hps"]}
    return (
        hps,
        [make_cond(c, hps) for c in spec["conds"]],
        [make_forb(f, hps) for f in spec["forbs"]],
    )


def build(spec, seed=None, name=None, rng=None):
    """Build a space; with `rng` the parts are added in a random admissible manner."""
    cs = ConfigurationSpace(name=name, seed=seed)
    hps, conds, forbs = parts(spec)
    if rng is None or rng.random() < 0.4:
        cs.add(list(hps.values()), conds, forbs)
        return cs
    hl = list(hps.values())
    rng.shuffle(hl)
    rng.shuffle(conds)
    rest = conds + forbs
    if rng.random() < 0.5:
        # hyperparameters first, then one by one
        cs.add(hl)
        for x in rest:
            cs.add(x)
    else:
        mid = len(hl) // 2
        cs.add(*hl[:mid])
        cs.add(hl[mid:], rest)
    return cs
