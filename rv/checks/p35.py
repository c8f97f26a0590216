"""P35: asking changes nothing, and what is handed out stands alone."""
from __future__ import annotations

import copy
import io
import pickle
import random

import numpy as np
from ConfigSpace import (
    CategoricalHyperparameter,
    Configuration,
    ConfigurationSpace,
    ForbiddenInClause,
    InCondition,
    OrdinalHyperparameter,
)
from ConfigSpace.exceptions import ForbiddenValueError
from ConfigSpace.util import (
    check_configuration,
    deactivate_inactive_hyperparameters,
    fix_types,
    generate_grid,
    get_one_exchange_neighbourhood,
    get_random_neighbor,
    impute_inactive_values,
)

from rv.build import build, make_hp
from rv.checks.p17 import yaml
from rv.checks.p22 import global_state
from rv.model import HP, Model
from rv.mon import cfg_state, snapshot
from rv.spec import describe, gen_spec, legal_value, random_values

RULE = "a state is a distinct (space, sequence of questions) after each of which the space, all configurations handed out so far and all arguments were compared with their state before"
NEEDS = [
    "verdict:space-unchanged", "verdict:configurations-unchanged", "verdict:arguments-unchanged", "verdict:same-samples", "verdict:in-turns", "verdict:given-unchanged", "verdict:global-state",
    "op:sample", "op:sample-one", "op:default", "op:neighbors", "op:random-neighbor", "op:grid", "op:serialize", "op:json", "op:print", "op:copies", "op:read-configuration", "op:from-values", "op:from-vector",
    "op:hyperparameter", "op:condition", "op:clause", "op:impute", "op:deactivate", "op:fix-types", "op:no-priors", "op:composed", "op:assign", "op:compare", "op:size", "spoiled", "odd-arguments",
]
ASSUMPTIONS = ["the vector of a configuration and the array it was made from are shared, as documented for the internal representation; they are not written to"]


def full_state(c):
    return (*cfg_state(c), hash(c), str(c))


class World:
    """A space, everything it has handed out, and a twin that only draws samples."""

    def __init__(self, ctx, rng, spec):
        self.ctx, self.rng, self.spec = ctx, rng, spec
        self.model = Model(spec)
        self.defs = {d["name"]: d for d in spec["hps"]}
        seed = rng.randrange(1000)
        self.cs, self.twin = build(spec, seed=seed), build(spec, seed=seed)
        self.held = []
        self.before = snapshot(self.cs)
        self.printed = str(self.cs)
        self.ops = []

    def hold(self, c):
        self.held.append([c, full_state(c)])

    def pick(self):
        if not self.held:
            self.hold(self.cs.get_default_configuration())
        return self.rng.choice(self.held)[0]

    def judge(self, op):
        ctx = self.ctx
        now = snapshot(self.cs)
        ctx.check(now == self.before and str(self.cs) == self.printed, "space-unchanged", lambda: f"after {self.ops}:\n{self.before}\n{now}")
        for c, state in self.held:
            ctx.check(full_state(c) == state, "configurations-unchanged", lambda: f"after {self.ops}:\n{state}\n{full_state(c)}")
        if len(self.held) > 12:
            self.held = self.rng.sample(self.held, 8)

    def same_args(self, before, args):
        self.ctx.check(repr(before) == repr(args), "arguments-unchanged", lambda: f"after {self.ops[-1]}: {before} {args}")


def arrays(rng, w, cfgs):
    return np.array([c.get_array() for c in cfgs]).T.copy()


def do(w, op):
    ctx, rng, cs = w.ctx, w.rng, w.cs
    s = rng.randrange(10**6)
    if op in ("sample", "sample-one"):
        n = None if op == "sample-one" else rng.choice([1, 2, 3, 6])
        a, b = cs.sample_configuration(n), w.twin.sample_configuration(n)
        a, b = (a, b) if isinstance(a, list) else ([a], [b])
        ctx.check([cfg_state(c) for c in a] == [cfg_state(c) for c in b], "same-samples", lambda: f"after {w.ops}: {a} {b}")
        for c in a:
            w.hold(c)
        a.clear()
    elif op == "default":
        w.hold(cs.get_default_configuration())
    elif op == "neighbors":
        c = w.pick()
        if any(HP(d).size > 1 for d in w.spec["hps"]):
            for _, o in zip(range(rng.choice([1, 3, 6])), get_one_exchange_neighbourhood(c, seed=s, num_neighbors=rng.choice([1, 4]))):
                w.hold(o)
    elif op == "random-neighbor":
        try:
            w.hold(get_random_neighbor(w.pick(), seed=s))
        except ValueError:
            ctx.skip("no-neighbor")
    elif op == "grid":
        steps = {d["name"]: 2 for d in w.spec["hps"] if d["k"] in ("uint", "ufloat")}
        if all(d["k"] in ("cat", "ord", "const", "uint", "ufloat") for d in w.spec["hps"]) and np.prod([2.0 if d["k"] in ("uint", "ufloat") else HP(d).size for d in w.spec["hps"]]) <= 500:
            keep = dict(steps)
            g = generate_grid(cs, steps)
            w.same_args(keep, steps)
            for c in rng.sample(g, min(4, len(g))):
                w.hold(c)
            g.clear()
        else:
            ctx.skip("grid-too-large")
            return
    elif op == "serialize":
        d = cs.to_serialized_dict()
        keep = copy.deepcopy(d)
        back = ConfigurationSpace.from_serialized_dict(d)
        w.same_args(keep, d)
        back.sample_configuration(2)
        # what comes back is the user's, only the meta data are the ones given by the user
        for part in ("hyperparameters", "conditions", "forbiddens"):
            for item in d[part]:
                for v in list(item.values()):
                    if isinstance(v, list):
                        v.clear()
                item.clear()
            d[part].clear()
        d.clear()
        ctx.event("spoiled")
    elif op == "json":
        b = io.StringIO()
        (cs.to_json if yaml is None or rng.random() < 0.7 else cs.to_yaml)(b)
    elif op == "print":
        str(cs), repr(cs), [str(x) for x in [*cs.values(), *cs.conditions, *cs.forbidden_clauses]]
        [repr(c) for c, _ in w.held], [repr(hp) for hp in cs.values()]
    elif op == "copies":
        how = rng.choice(["deepcopy", "pickle", "configuration", "configuration"])
        if how == "configuration":
            o = rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(w.pick())
            assign(w, o)
            ctx.event("spoiled")
        else:
            o = copy.deepcopy(cs) if how == "deepcopy" else pickle.loads(pickle.dumps(cs))
            o.seed(s)
            o.sample_configuration(2)
            o.add(make_hp({"k": "cat", "name": "!one more", "choices": ["x", "y"]}))
            ctx.event("spoiled")
    elif op == "read-configuration":
        c = w.pick()
        for what in rng.sample(["dict", "hash", "eq", "items", "valid", "array", "get", "in", "len", "plain"], 5):
            if what == "dict":
                d = dict(c)
                d.clear()
            elif what == "hash":
                hash(c)
            elif what == "eq":
                c == w.pick()  # noqa: B015
            elif what == "items":
                list(c.items()), list(c.keys()), list(c.values())
            elif what == "valid":
                c.check_valid_configuration()
            elif what == "array":
                c.get_array().copy().fill(7)
            elif what == "get":
                [c.get(n) for n in w.defs], c.get("nothing", 3)
            elif what == "in":
                [n in c for n in w.defs]
            elif what == "len":
                len(c)
            else:
                c.config_space, c.origin
    elif op == "from-values":
        v = dict(w.pick())
        keep = dict(v)
        c = Configuration(cs, values=v)
        w.same_args(keep, v)
        w.hold(c)
        assign(w, c)
        w.held[-1][1] = full_state(c)
        w.same_args(keep, v)
        v.clear()
        bad = {**keep, rng.choice(list(w.defs)): object()}
        try:
            Configuration(cs, values=bad)
        except (ValueError, TypeError):
            pass
    elif op == "from-vector":
        x = w.pick().get_array().copy()
        keep = x.copy()
        c = Configuration(cs, vector=x)
        dict(c), hash(c), c.check_valid_configuration()
        check_configuration(cs, x, allow_inactive_with_values=False)
        w.same_args(keep, x)
        w.hold(c)
    elif op == "hyperparameter":
        n = rng.choice(list(w.defs))
        hp = cs[n]
        R = np.random.RandomState
        vals = hp.sample_value(5, seed=R(s))
        vecs = hp.to_vector(vals)
        args = [vals, vecs]
        keep = copy.deepcopy(args)
        hp.to_value(vecs), hp.to_vector(vals), hp.legal_value(vals), hp.legal_vector(vecs)
        hp.pdf_values(vals), hp.pdf_vector(vecs), hp.get_max_density(), hp.get_size(), hp.to_vector(vals[0]), hp.to_value(vecs[0])
        hp == copy.copy(hp), hp.get_num_neighbors(vals[0])  # noqa: B015
        if HP(w.defs[n]).size > 1:
            hp.neighbors_values(vals[0], 2, seed=R(s)).copy()
            out = hp.neighbors_vectorized(vecs[0], 2, seed=R(s))
            if isinstance(out, np.ndarray) and out.flags.writeable:
                out.fill(0)
                ctx.event("spoiled")
            again = hp.neighbors_vectorized(vecs[0], 2, seed=R(s))
            ctx.check(bool(np.all(hp.legal_vector(again))) and vecs[0] not in again, "results-alone", lambda: f"neighbors of {vecs[0]} after writing to earlier ones: {again}")
        w.same_args(keep, args)
        # with entries which are not set or none of its own
        odd = np.array(vecs, dtype=float)
        for i in range(len(odd)):
            if rng.random() < 0.6:
                odd[i] = rng.choice([np.nan, np.inf, -np.inf, -1.0, 1.5, 0.3, 1e9])
        foreign = np.empty(5, dtype=object)
        foreign[:] = [rng.choice([v, None, "nothing", -(10**12), 0.123, float("nan")]) for v in vals]
        args = [odd, foreign, foreign.tolist()]
        keep = copy.deepcopy(args)
        for f, x in [(hp.pdf_vector, odd), (hp.legal_vector, odd), (hp.to_value, odd), (hp.pdf_values, foreign), (hp.legal_value, foreign), (hp.to_vector, foreign), (hp.pdf_values, args[2]), (hp.legal_value, args[2])]:
            try:
                f(x)
            except Exception:  # noqa: BLE001
                ctx.skip("odd-argument-refused")
        w.same_args(keep, args)
        ctx.event("odd-arguments")
        for x in (hp.sample_vector(3, seed=R(s)), hp.pdf_vector(vecs)):
            if x.flags.writeable:
                x.fill(-1)
    elif op in ("condition", "clause"):
        parts = cs.conditions if op == "condition" else cs.forbidden_clauses
        if not parts:
            ctx.skip("no-" + op)
            return
        p = rng.choice(list(parts))
        cfgs = [w.pick() for _ in range(4)]
        m, v, x = arrays(rng, w, cfgs), dict(cfgs[0]), cfgs[0].get_array().copy()
        if rng.random() < 0.4:  # entries may be missing
            m[rng.randrange(len(m)), rng.randrange(4)] = np.nan
            x[rng.randrange(len(x))] = np.nan
        keep = copy.deepcopy([m, v, x])
        if op == "condition":
            p.satisfied_by_vector(x), p.satisfied_by_vector_array(m)
            if len(v) == len(w.defs):
                p.satisfied_by_value(v)
        else:
            p.is_forbidden_vector(x), p.is_forbidden_vector_array(m), p.is_forbidden_value(v)
        p == copy.copy(p), str(p)  # noqa: B015
        w.same_args(keep, [m, v, x])
    elif op == "impute":
        try:
            impute_inactive_values(w.pick())
        except ForbiddenValueError:
            ctx.skip("imputed-forbidden")
    elif op == "deactivate":
        v = dict(w.pick())
        for n in w.defs:
            if n not in v and rng.random() < 0.5:
                v[n] = legal_value(rng, w.defs[n])
        keep = dict(v)
        try:
            deactivate_inactive_hyperparameters(v, cs)
        except ValueError:
            ctx.skip("deactivated-forbidden")
        w.same_args(keep, v)
    elif op == "fix-types":
        try:
            fix_types(dict(w.pick()), cs)  # in place
        except (ValueError, TypeError):
            ctx.skip("fix-types")
    elif op == "no-priors":
        o = cs.remove_hyperparameter_priors()
        o.add(make_hp({"k": "cat", "name": "!one more", "choices": ["x", "y"]}))
        ctx.event("spoiled")
    elif op == "composed":
        o = ConfigurationSpace(seed=s)
        o.add(make_hp({"k": "cat", "name": "sel", "choices": ["x", "y"]}))
        kw = {"parent_hyperparameter": {"parent": o["sel"], "value": "x"}} if rng.random() < 0.5 else {}
        keep = dict(kw.get("parent_hyperparameter", {}))
        o.add_configuration_space("sub", cs, **kw)
        ctx.check(kw.get("parent_hyperparameter", {}) == keep, "arguments-unchanged")
        o.sample_configuration(2)
        o.add(make_hp({"k": "cat", "name": "!one more", "choices": ["x", "y"]}))
        ctx.event("spoiled")
    elif op == "assign":
        # the only thing that changes anything, and only the one configuration
        e = rng.choice(w.held) if w.held else None
        if e is None:
            return
        assign(w, e[0])
        e[1] = full_state(e[0])
    elif op == "compare":
        o = build(w.spec, seed=1)
        cs == o, cs != o, cs == 3, [cs[n] == o[n] for n in w.defs]  # noqa: B015
        [a == b for a in cs.conditions for b in o.conditions], [a == b for a in cs.forbidden_clauses for b in o.forbidden_clauses]
        "nothing" in cs, [n in cs for n in w.defs], len(cs), list(cs), dict(cs)
    elif op == "size":
        cs.estimate_size(), cs.get_hyperparameter_names() if hasattr(cs, "get_hyperparameter_names") else None
        for n in w.defs:
            cs.parents_of[n], cs.children_of[n], cs.parent_conditions_of[n], cs.child_conditions_of[n], cs.index_of[n], cs.at[cs.index_of[n]]
        for f in (cs.unconditional_hyperparameters, cs.conditional_hyperparameters):
            list(f)
    ctx.event("op:" + op)


def assign(w, c):
    n = w.rng.choice(sorted(c) or list(w.defs))
    try:
        c[n] = legal_value(w.rng, w.defs[n])
    except ValueError:
        w.ctx.skip("assignment-refused")


OPS = sorted(x[3:] for x in NEEDS if x.startswith("op:"))


def case_history(ctx, rng):
    small = rng.random() < 0.6
    kinds = rng.choice([None, ["cat", "ord", "uint", "ufloat", "const"]])
    spec = gen_spec(rng, n=rng.choice([1, 2, 4, 6, 9]), small=small, kinds=kinds, p_cond=rng.choice([0.3, 0.8]), n_forb=rng.choice([0, 1, 3]), meta=rng.random() < 0.3)
    ctx.note(spec=spec)
    w = World(ctx, rng, spec)
    for _ in range(rng.choice([6, 12, 25])):
        op = rng.choice(OPS)
        w.ops.append(op)
        ctx.note(ops=list(w.ops))
        g = global_state()
        do(w, op)
        ctx.check(global_state() == g, "global-state", lambda: w.ops[-1])
        w.judge(op)
    do(w, "sample")
    ctx.state(repr(spec), tuple(w.ops))
    ctx.sample({"space": describe(spec), "questions": w.ops, "configurations watched": len(w.held)})


def case_turns(ctx, rng):
    """Several neighbourhoods iterated in turns, with other questions in between."""
    spec = gen_spec(rng, n=rng.choice([2, 3, 5]), small=rng.random() < 0.7, p_cond=rng.choice([0.3, 0.8]), n_forb=rng.choice([0, 1, 2]))
    if all(HP(d).size == 1 for d in spec["hps"]):
        return
    ctx.note(spec=spec)
    w = World(ctx, rng, spec)
    starts = w.cs.sample_configuration(2)
    w.twin.sample_configuration(2)
    for c in starts:
        w.hold(c)
    jobs = []
    for _ in range(rng.choice([2, 3])):
        c, s, kw = rng.choice(starts), rng.randrange(3), rng.choice([{}, {"num_neighbors": 2}, {"stdev": 0.05}])
        alone = [cfg_state(o) for _, o in zip(range(25), get_one_exchange_neighbourhood(c, seed=s, **kw))]
        jobs.append([get_one_exchange_neighbourhood(c, seed=s, **kw), alone, []])
    live = list(jobs)
    while live:
        j = rng.choice(live)
        try:
            if len(j[2]) >= 25:
                raise StopIteration
            o = next(j[0])
            j[2].append(cfg_state(o))
            if rng.random() < 0.2:
                w.hold(o)
            elif rng.random() < 0.3:
                assign(w, o)  # it is the user's now
        except StopIteration:
            live.remove(j)
        if rng.random() < 0.1:
            op = rng.choice(["sample", "default", "print", "read-configuration", "hyperparameter", "from-values", "random-neighbor", "serialize"])
            w.ops.append(op)
            do(w, op)
    for _, alone, got in jobs:
        ctx.check(got == alone, "in-turns", lambda: f"{len(alone)} alone and {len(got)} in turns")
    w.judge("turns")
    ctx.state(repr(spec), "turns", tuple(len(a) for _, a, _ in jobs))


def case_shared_rows(ctx, rng):
    """Many configurations of one draw: changing each leaves all others alone."""
    spec = gen_spec(rng, n=rng.choice([2, 4, 7]), small=True, n_forb=rng.choice([0, 2]))
    ctx.note(spec=spec)
    w = World(ctx, rng, spec)
    cfgs = w.cs.sample_configuration(rng.choice([2, 5, 20]))
    w.twin.sample_configuration(len(cfgs))
    states = [full_state(c) for c in cfgs]
    for i, c in enumerate(cfgs):
        for _ in range(2):
            assign(w, c)
        states[i] = full_state(c)
        ctx.check([full_state(x) for x in cfgs] == states, "configurations-unchanged", lambda: f"changing number {i}")
    v = random_values(rng, w.model, w.defs)
    if not w.model.forbidden(v):
        a, b = Configuration(w.cs, values=v), Configuration(w.cs, values=v)
        s = full_state(b)
        assign(w, a)
        ctx.check(full_state(b) == s, "configurations-unchanged", "from the same values")
    d1, d2 = w.cs.get_default_configuration(), w.cs.get_default_configuration()
    s = full_state(d2)
    assign(w, d1)
    ctx.check(full_state(d2) == s and full_state(w.cs.get_default_configuration()) == s, "configurations-unchanged", "defaults")
    w.judge("rows")
    ctx.state(repr(spec), "rows", len(cfgs))


def case_given(ctx, rng):
    """Lists and dictionaries which were passed in are changed afterwards."""
    word = lambda: "".join(rng.choice("abcdef") for _ in range(3))  # noqa: E731
    pool = rng.choice([[word() + str(i) for i in range(5)], [1, 2, 3, 5, 8], [0.5, 1.5, 2.5], [True, False]])
    n = len(pool)
    choices, weights, seq = list(pool), [rng.randint(1, 9) for _ in pool], list(pool)
    sub = rng.choice([list, list, tuple, set, np.array])
    c_vals, f_vals = [sub(rng.sample(pool, rng.randint(1, n - 1))) for _ in range(2)]
    if sub is np.array and isinstance(pool[0], str):
        c_vals, f_vals = list(c_vals), list(f_vals)
    free = next(v for v in pool if v not in f_vals)  # the default is not forbidden
    cat = CategoricalHyperparameter("c", choices, weights=weights if rng.random() < 0.5 else None, default_value=free)
    odl = OrdinalHyperparameter("o", seq, default_value=free)
    par = rng.choice([cat, odl])
    child = make_hp({"k": "ufloat", "name": "x", "lo": 0.0, "hi": 1.0, "log": False})
    cond = InCondition(child, par, c_vals)
    forb = ForbiddenInClause(rng.choice([cat, odl]), f_vals)
    parts = [cat, odl, child, cond, forb]
    cs = None
    if rng.random() < 0.6:
        cs = ConfigurationSpace(seed=rng.randrange(100))
        (cs.add(parts) if rng.random() < 0.5 else cs.add(*parts))
    desc = {"x": list(pool), "y": [0, 5] if rng.random() < 0.3 else (0, 5), "z": 3}
    by_dict = ConfigurationSpace(space=desc, seed=3)

    def look():
        out = [repr(p) for p in parts[:4]] + [str(forb), cat.choices, repr(cat.weights), repr(cat.probabilities), odl.sequence, repr(list(cond.values)), repr(list(forb.values))]
        for v in pool:
            out.append((bool(cond.satisfied_by_value({"c": v, "o": v})), bool(forb.is_forbidden_value({"c": v, "o": v})), cat.legal_value(v), odl.legal_value(v)))
        out.append(repr(cond.to_dict()))
        out.append((str(by_dict), repr(by_dict.to_serialized_dict())))
        if cs is not None:
            own = cs.conditions[0]
            out += [str(cs), repr(cs.to_serialized_dict())]
            out += [bool(own.satisfied_by_value({"c": v, "o": v})) for v in pool]
        return out

    before = look()
    given = [choices, weights, seq, c_vals, f_vals, parts, *[v for v in desc.values() if isinstance(v, list)]]
    if rng.random() < 0.5:
        given.append(cond.to_dict()["values"])
        if cs is not None:
            d = cs.to_serialized_dict()
            given += [d["conditions"][0]["values"], d["forbiddens"][0]["values"], d["conditions"], d["hyperparameters"]]
    done = []
    for i, g in enumerate(given):
        if g is parts or rng.random() < 0.4:
            continue
        how = rng.choice(["clear", "first", "more", "reverse"])
        if isinstance(g, list):
            {"clear": g.clear, "first": lambda: g.__setitem__(0, g[-1]), "more": lambda: g.append(pool[0]), "reverse": g.reverse}[how]()
        elif isinstance(g, set):
            g.clear()
        elif isinstance(g, np.ndarray):
            g[:] = pool[-1]
        else:
            continue
        done.append((i, how))
        ctx.note(done=done)
        after = look()
        ctx.check(after == before, "given-unchanged", lambda: f"after {how} on argument {i}: {[(a, b) for a, b in zip(before, after) if a != b]}")
    desc.clear()
    ctx.check(look() == before, "given-unchanged", "after clearing the dictionary")
    if done:
        ctx.state("given", repr(pool), sub.__name__, tuple(done))


CASES = [("history", case_history, 60, 2000), ("turns", case_turns, 25, 800), ("rows", case_shared_rows, 25, 800), ("given", case_given, 60, 2000)]
