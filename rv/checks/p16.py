"""P16: a refused addition leaves the space unchanged."""
from __future__ import annotations

import ConfigSpace as C
from ConfigSpace import ConfigurationSpace
from ConfigSpace.exceptions import (
    AmbiguousConditionError,
    CyclicDependancyError,
    ForbiddenValueError,
    HyperparameterAlreadyExistsError,
    HyperparameterNotFoundError,
)

from rv.build import make_cond, make_forb, make_hp
from rv.checks.p15 import judge_reports
from rv.model import FLOATS, HP, NUM, Model, Undecided, child_of, forb_names, parents_of, same
from rv.mon import check_config, real_defaults, snapshot
from rv.spec import acceptance, describe, gen_forb, gen_full_cond, gen_hp, gen_spec, hard, large, legal_value, prior_pools, random_values

RULE = "a state is a distinct (space, kind of refused addition, its position among valid additions in the same call) after which the space was judged"
NEEDS = [
    "verdict:refused", "verdict:kind", "verdict:unchanged", "verdict:same-samples", "verdict:usable", "verdict:sample-valid",
    "bad:duplicate", "bad:duplicate-same", "bad:unknown-child", "bad:unknown-parent", "bad:second-condition", "bad:cycle", "bad:self-cycle", "bad:clause-default",
    "bad:clause-unknown", "bad:foreign", "batch:alone", "batch:mixed", "bad:default-turns-forbidden", "bad:space-duplicate", "history:several",
]
ASSUMPTIONS = []


def fresh(names, rng, letters="xyzwuv"):
    while True:
        n = rng.choice(letters) + str(rng.randrange(1000))
        if n not in names:
            return n


def trial_default(cur, extra_forbs=(), extra_conds=(), extra_hps=()):
    """Whether the default of the extended space is forbidden."""
    sp = {"hps": [*cur["hps"], *extra_hps], "conds": [*cur["conds"], *extra_conds], "forbs": [*cur["forbs"], *extra_forbs]}
    m = Model(sp)
    real = {d["name"]: make_hp(d).default_value for d in sp["hps"]}
    return bool(m.forbidden(m.default(real)))


def descendants(model, name):
    out, todo = set(), [name]
    while todo:
        x = todo.pop()
        for ch, c in model.cond.items():
            if x in parents_of(c) and ch not in out:
                out.add(ch)
                todo.append(ch)
    return out


def make_bad(rng, cur, cs, kind):
    """(object(s) to add, allowed errors), or None if this kind is not possible here."""
    model = Model(cur)
    hps = {n: cs[n] for n in cs}
    defs = {d["name"]: d for d in cur["hps"]}
    names = list(defs)
    if kind == "duplicate":
        d = gen_hp(rng, rng.choice(names))
        return [make_hp(d)], HyperparameterAlreadyExistsError
    if kind == "duplicate-same":
        return [make_hp(defs[rng.choice(names)])], HyperparameterAlreadyExistsError
    if kind == "unknown-child":
        new = make_hp(gen_hp(rng, fresh(names, rng)))
        p = defs[rng.choice(names)]
        return [C.EqualsCondition(new, hps[p["name"]], legal_value(rng, p))], HyperparameterNotFoundError
    if kind == "unknown-parent":
        d = gen_hp(rng, fresh(names, rng))
        new = make_hp(d)
        free = [n for n in names if n not in model.cond]
        if not free:
            return None
        ch = rng.choice(free)
        c = C.EqualsCondition(hps[ch], new, legal_value(rng, d))
        others = [n for n in names if n != ch and n not in descendants(model, ch)]
        if others and rng.random() < 0.5:
            # part of a conjunction whose other parts are fine
            p = defs[rng.choice(others)]
            parts = [C.EqualsCondition(hps[ch], hps[p["name"]], legal_value(rng, p)), c]
            rng.shuffle(parts)
            c = rng.choice([C.AndConjunction, C.OrConjunction])(*parts)
        return [c], HyperparameterNotFoundError
    if kind == "unknown-relation":
        # in a conjunction whose other parts are fine
        nums = [d for d in cur["hps"] if d["k"] in NUM]
        if not nums:
            return None
        new = make_hp({"k": "uint", "name": fresh(names, rng), "lo": 0, "hi": 5, "log": False})
        pair = [hps[rng.choice(nums)["name"]], new]
        rng.shuffle(pair)
        f = rng.choice([C.ForbiddenLessThanRelation, C.ForbiddenEqualsRelation, C.ForbiddenGreaterThanRelation])(*pair)
        if rng.random() < 0.7:
            o = rng.choice(cur["hps"])
            parts = [C.ForbiddenEqualsClause(hps[o["name"]], legal_value(rng, o)), f]
            rng.shuffle(parts)
            f = C.ForbiddenAndConjunction(*parts)
        return [f], HyperparameterNotFoundError
    if kind == "second-condition":
        ok = [n for n in model.cond if [p for p in names if p != n and p not in descendants(model, n)]]
        if not ok:
            return None
        ch = rng.choice(ok)
        cands = [defs[p] for p in names if p != ch and p not in descendants(model, ch)]
        for _ in range(10):
            c = gen_full_cond(rng, ch, cands)
            real = make_cond(c, hps)
            if real != make_cond(model.cond[ch], hps):
                return [real], AmbiguousConditionError
        return None
    if kind in ("cycle", "self-cycle"):
        if kind == "self-cycle":
            # a condition on itself can be refused when it is defined already
            n = rng.choice(names)
            try:
                return [C.EqualsCondition(hps[n], hps[n], legal_value(rng, defs[n]))], ValueError
            except ValueError:
                return "refused-early"
        ok = [(n, x) for n in names if n not in model.cond for x in descendants(model, n)]
        if not ok:
            return None
        n, x = rng.choice(ok)
        c = C.EqualsCondition(hps[n], hps[x], legal_value(rng, defs[x]))
        others = [p for p in names if p != n and p not in descendants(model, n)]
        if others and rng.random() < 0.4:
            p = rng.choice(others)
            parts = [C.EqualsCondition(hps[n], hps[p], legal_value(rng, defs[p])), c]
            rng.shuffle(parts)
            c = rng.choice([C.AndConjunction, C.OrConjunction])(*parts)
        return [c], CyclicDependancyError
    if kind == "clause-default":
        dflt = model.default(real_defaults(cs))
        act = [n for n in dflt if defs[n]["k"] not in FLOATS]
        if not act:
            return None
        ns = rng.sample(act, min(len(act), rng.choice([1, 1, 2, 3])))
        ps = [("EQ", n, dflt[n]) if rng.random() < 0.6 else ("IN", n, [dflt[n], legal_value(rng, defs[n])]) for n in ns]
        ps = [p if p[0] == "EQ" or not same(p[2][0], p[2][1]) else ("EQ", p[1], p[2][0]) for p in ps]
        f = ps[0] if len(ps) == 1 and rng.random() < 0.5 else ("AND", ps)
        return [make_forb(f, hps)], ForbiddenValueError
    if kind == "default-turns-forbidden":
        # a condition that switches a hyperparameter off or on such that the default
        # configuration becomes forbidden
        for _ in range(15):
            free = [n for n in names if n not in model.cond]
            if not free:
                return None
            ch = rng.choice(free)
            cands = [defs[p] for p in names if p != ch and p not in descendants(model, ch)]
            if not cands:
                continue
            c = gen_full_cond(rng, ch, cands)
            f = gen_forb(rng, cur["hps"])
            try:
                if trial_default(cur, [f], [c]):
                    return [make_cond(c, hps), make_forb(f, hps)], ForbiddenValueError
            except Undecided:
                continue
        return None
    if kind == "clause-unknown":
        d = gen_hp(rng, fresh(names, rng), kinds=["cat", "uint"], small=True)
        new = make_hp(d)
        parts = [C.ForbiddenEqualsClause(new, legal_value(rng, d))]
        if rng.random() < 0.6:
            n = rng.choice(names)
            parts.append(C.ForbiddenEqualsClause(hps[n], legal_value(rng, defs[n])))
            rng.shuffle(parts)
            return [C.ForbiddenAndConjunction(*parts)], HyperparameterNotFoundError
        nums = [n for n in names if defs[n]["k"] in ("uint", "ufloat", "nint", "nfloat")]
        if d["k"] == "uint" and nums and rng.random() < 0.5:
            a, b = hps[rng.choice(nums)], new
            if rng.random() < 0.5:
                a, b = b, a
            return [C.ForbiddenLessThanRelation(a, b)], HyperparameterNotFoundError
        return parts[:1], HyperparameterNotFoundError
    if kind == "foreign":
        return [rng.choice([3, 4.5, None, object()])], TypeError
    raise KeyError(kind)


KINDS = [
    "duplicate", "duplicate-same", "unknown-child", "unknown-parent", "second-condition", "cycle", "self-cycle", "clause-default",
    "clause-default", "default-turns-forbidden", "clause-unknown", "unknown-relation", "foreign",
]


def good_items(rng, cur, cs, cond):
    """A few valid additions to batch with an invalid one."""
    names = [d["name"] for d in cur["hps"]]
    out = [make_hp(gen_hp(rng, fresh(names, rng, "rst")))]  # never the name of an unknown one
    model = Model(cur)
    free = [n for n in names if n not in model.cond]
    if cond and free and rng.random() < 0.6:
        ch = rng.choice(free)
        cands = [d for d in cur["hps"] if d["name"] != ch and d["name"] not in descendants(model, ch)]
        if cands:
            c = gen_full_cond(rng, ch, cands)
            try:
                if not trial_default(cur, (), [c]):
                    out.append(make_cond(c, {n: cs[n] for n in cs}))
            except Undecided:
                pass
    if rng.random() < 0.6:
        f = gen_forb(rng, cur["hps"])
        try:
            if not trial_default(cur, [f]):
                out.append(make_forb(f, {n: cs[n] for n in cs}))
        except Undecided:
            pass
    rng.shuffle(out)
    return out


def refuse(ctx, rng, cs, cur, kind):
    bad = make_bad(rng, cur, cs, kind)
    if bad is None:
        ctx.skip("not-possible:" + kind)
        return False
    ctx.event("bad:" + kind)
    if bad == "refused-early":
        return False
    objs, errors = bad
    before = snapshot(cs)
    size, dflt = cs.estimate_size(), dict(cs.get_default_configuration())
    r = rng.random()
    if r < 0.5:
        batch = "alone"
        args = objs
    else:
        batch = "mixed"
        args = [*good_items(rng, cur, cs, "default" not in kind), *objs]
        rng.shuffle(args)
        if r < 0.7:
            args = [args]
    ctx.event("batch:" + batch)
    ctx.note(kind=kind, args=args)
    try:
        cs.add(*args)
    except Exception as e:  # noqa: BLE001
        ctx.check(True, "refused")
        # batched additions may have an earlier defect of their own
        ctx.check(isinstance(e, errors) or batch == "mixed" and isinstance(e, ValueError), "kind", lambda: f"{kind}: {e!r} instead of {errors}")
    else:
        ctx.check(False, "refused", lambda: f"{kind} {[str(a) for a in args]} was accepted")
        return True
    after = snapshot(cs)
    ctx.check(after == before, "unchanged", lambda: f"{kind}: {before}\n->\n{after}")
    judge_reports(ctx, cur, cs)
    ctx.check(cs.estimate_size() == size and dict(cs.get_default_configuration()) == dflt, "unchanged", lambda: f"{kind}: size {size} {cs.estimate_size()}, default {dflt}")
    ctx.state(repr(describe(cur)), kind, batch, len(args))
    return True


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 3, 4, 6]), "p_cond": rng.choice([0.3, 0.7])} | kw), small=True)
    ctx.note(spec=spec)
    seed = rng.randrange(2**31)
    cs, twin = ConfigurationSpace(seed=seed), ConfigurationSpace(seed=seed)
    cur = {"hps": [], "conds": [], "forbs": []}
    mine = {d["name"]: make_hp(d) for d in spec["hps"]}
    others = {d["name"]: make_hp(d) for d in spec["hps"]}
    cur["hps"] = list(spec["hps"])
    cs.add(mine.values())
    twin.add(others.values())
    done = 0
    pools = prior_pools(rng, spec["hps"])
    todo = [("c", c) for c in spec["conds"]] + [("f", f) for f in spec["forbs"]]
    rng.shuffle(todo)
    per_round = max(1, len(todo) // 6)
    while True:
        for _ in range(rng.choice([1, 2])):
            done += refuse(ctx, rng, cs, cur, rng.choice(KINDS))
        # still usable, exactly as a space that never saw the refused additions
        ctx.check(cs == twin, "same-as-twin", lambda: f"{cs}\n{twin}")
        a, b = cs.sample_configuration(3), twin.sample_configuration(3)
        ctx.check([dict(x) for x in a] == [dict(x) for x in b], "same-samples", lambda: f"{a} {b}")
        ctx.check([x.get_array().tobytes() for x in a] == [x.get_array().tobytes() for x in b], "same-samples")
        model = Model(cur)
        for x in a:
            check_config(ctx, model, cs, x, "sample")
        if not todo:
            break
        for kind, x in [todo.pop() for _ in range(min(per_round, len(todo)))]:
            trial = {**cur, ("conds" if kind == "c" else "forbs"): [*cur["conds" if kind == "c" else "forbs"], x]}
            try:
                if trial_default(trial) or acceptance(rng, Model(trial), pools) < 0.1:
                    continue
            except Undecided:
                continue
            mk = make_cond if kind == "c" else make_forb
            try:
                cs.add(mk(x, mine))
            except Exception as e:  # noqa: BLE001
                ctx.check(False, "usable", lambda: f"{e!r} for {x}")
                return
            ctx.check(True, "usable")
            twin.add(mk(x, others))
            cur = trial
    if done > 1:
        ctx.event("history:several")
    ctx.sample(describe(cur))


def case_space(ctx, rng):
    """Composition that must be refused: names already present, an unknown parent."""
    a = gen_spec(rng, n=rng.choice([2, 3]), small=True)
    b = gen_spec(rng, n=rng.choice([2, 3]), small=True)
    ctx.note(spec=a, other=b)
    from rv.build import build

    cs, src = build(a, seed=3), build(b, seed=4)
    cs.add_configuration_space("p", src)
    before, sb = snapshot(cs), snapshot(src)
    kind = rng.choice(["again", "parent"])
    ctx.event("bad:space-duplicate")
    try:
        if kind == "again":
            cs.add_configuration_space("p", src)
        else:
            foreign = C.CategoricalHyperparameter("not in the space", ["u", "v"])
            cs.add_configuration_space("q", src, parent_hyperparameter={"parent": foreign, "value": "u"})
    except ValueError:
        ctx.check(True, "refused")
    else:
        ctx.check(False, "refused", f"composition {kind} was accepted")
    ctx.check(snapshot(cs) == before, "unchanged", lambda: f"{before}\n->\n{snapshot(cs)}")
    ctx.check(snapshot(src) == sb, "unchanged", lambda: f"source {sb}\n->\n{snapshot(src)}")


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("random", case_random, 60, 2500),
    ("forbidden", lambda ctx, rng: case_random(ctx, rng, n_forb=4), 25, 800),
    ("space", case_space, 6, 150),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 3, 100),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
