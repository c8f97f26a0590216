"""P32: older names give the same results as what replaces them."""
from __future__ import annotations

import io

import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace import c_util
from ConfigSpace.read_and_write import json as cs_json

from rv.build import build, make_hp, parts
from rv.extract import canon_of
from rv.hpgen import as_array, some_values, wide_hp
from rv.model import HP, Model, Undecided
from rv.mon import cfg_state, snapshot
from rv.spec import gen_spec, legal_value, random_values, shape
from rv.checks.p02 import mutate_values
from rv.checks.p15 import judge_reports

RULE = "a state is a distinct (definition or space) whose older names were compared with their replacement"
NEEDS = [
    "verdict:hp-domain", "verdict:hp-legal", "verdict:hp-density", "verdict:hp-sample", "verdict:hp-neighbors", "verdict:space-reads", "verdict:space-family",
    "verdict:space-adds", "verdict:space-added-meaning", "verdict:space-checks", "verdict:space-refuses", "verdict:space-json", "verdict:condition-reads", "verdict:configuration", "verdict:clauses", "verdict:bounds",
]
ASSUMPTIONS = ["older names that were private by convention are only compared where the library itself names the replacement"]


def same(a, b) -> bool:
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.tolist(), b.tolist()))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and bool(a == b)


class Old:
    """Private older names, which may be gone: then there is nothing to compare."""

    def __init__(self, ctx, obj):
        self.ctx, self.obj = ctx, obj

    def same(self, name, args, want, kind):
        if not hasattr(self.obj, name):
            self.ctx.skip("gone:" + name)
            return
        got = getattr(self.obj, name)
        got = got(*args) if args is not None else got
        self.ctx.check(same(got, want), kind, lambda: f"{name}{args}: {got!r} instead of {want!r}")


def case_hp(ctx, rng):
    d = wide_hp(rng)
    ctx.note(hp=d)
    hp = make_hp(d)
    old = Old(ctx, hp)
    ref = HP(d)
    R = np.random.RandomState
    ctx.check(hp.get_size() == hp.size == ref.size, "hp-domain", lambda: f"{hp.get_size()} {hp.size} {ref.size}")
    ctx.check(bool(hp.has_neighbors()) == (hp.get_num_neighbors() > 0), "hp-domain", "has_neighbors")
    if d["k"] not in ("cat", "const"):
        old.same("_lower", None, hp.lower_vectorized, "hp-domain")
        old.same("_upper", None, hp.upper_vectorized, "hp-domain")
    if d["k"] == "cat":
        ctx.check(hp.num_choices == len(ref.choices) if not callable(hp.num_choices) else hp.num_choices() == len(ref.choices), "hp-domain", "num_choices")
        old.same("_probabilities", None, np.asarray(hp.probabilities), "hp-domain")
    if d["k"] == "ord":
        n = hp.num_elements() if callable(hp.num_elements) else hp.num_elements
        ctx.check(n == len(ref.choices), "hp-domain", "num_elements")
    vals = some_values(rng, d, 8)
    odd = ["no such value", None, 1e30, -1e30]
    for v in vals + odd:
        ctx.check(bool(hp.is_legal(v)) == bool(hp.legal_value(v)) == ref.legal(v), "hp-legal", lambda: f"{v!r}")
    vecs = [float(hp.to_vector(v)) for v in vals]
    for x in [*vecs, -0.5, 1e9, float("nan")]:
        ctx.check(bool(hp.is_legal_vector(x)) == bool(hp.legal_vector(x)), "hp-legal", lambda: f"vector {x!r}")
    arr, varr = as_array(vals), np.array(vecs)
    if d["k"] not in ("const",):
        ctx.check(same(np.asarray(hp.pdf(arr)), np.asarray(hp.pdf_values(arr))), "hp-density", lambda: f"{vals}")
        for v, p in zip(vals, hp.pdf_values(arr)):
            ctx.check(abs(float(hp.pdf(v)) - float(p)) <= 1e-9 * max(1.0, float(p)), "hp-density", lambda: f"{v!r}: {hp.pdf(v)} instead of {p}")
    old.same("_pdf", (varr,), np.asarray(hp.pdf_vector(varr)), "hp-density")
    s, n = rng.randrange(1000), rng.choice([1, 3, 20])
    ctx.check(same(hp.sample(R(s)), hp.sample_value(seed=R(s))), "hp-sample", lambda: f"{hp.sample(R(s))!r}")
    old.same("_sample", (R(s), n), np.asarray(hp.sample_vector(n, seed=R(s))), "hp-sample")
    old.same("_sample", (R(s),), np.asarray(hp.sample_vector(1, seed=R(s))), "hp-sample")
    if ref.size > 1:
        x = rng.choice(vecs)
        num = rng.choice([1, 2, 4])
        kw = {} if d["k"] in ("cat", "ord") else {"std": rng.choice([0.1, 0.3])}
        try:
            want = np.asarray(hp.neighbors_vectorized(x, num, seed=R(s), **kw))
        except ValueError:
            ctx.skip("few-neighbors")
        else:
            ctx.check(same(np.asarray(hp.get_neighbors(x, R(s), number=num, **kw)), want), "hp-neighbors", lambda: f"{x} {num} {kw}")
            if num == 4:
                ctx.check(same(np.asarray(hp.get_neighbors(x, R(s), **kw)), want), "hp-neighbors", "without a number")
    for v, x in zip(vals, vecs):
        old.same("_transform", (x,), hp.to_value(x), "hp-convert")
        old.same("_transform_scalar", (x,), hp.to_value(x), "hp-convert")
        old.same("_inverse_transform", (v,), hp.to_vector(v), "hp-convert")
    old.same("_transform_vector", (varr,), np.asarray(hp.to_value(varr)), "hp-convert")
    old.same("_transform", (varr,), np.asarray(hp.to_value(varr)), "hp-convert")
    ctx.state("hp", repr(d))


def case_space(ctx, rng):
    spec = gen_spec(rng, n=rng.choice([1, 2, 4, 6]), small=rng.random() < 0.7, meta=True)
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    want = build(spec, seed=3)
    cs = ConfigurationSpace(seed=3)
    hps, conds, forbs = parts(spec)
    hl = list(hps.values())
    rng.shuffle(hl)
    # returned objects are the ones which were given
    if rng.random() < 0.5:
        got = cs.add_hyperparameters(iter(hl) if rng.random() < 0.5 else hl)
        ctx.check(len(got) == len(hl) and all(a is b for a, b in zip(got, hl)), "space-adds", "hyperparameters")
    else:
        ctx.check(all(cs.add_hyperparameter(h) is h for h in hl), "space-adds", "hyperparameter")
    if rng.random() < 0.5:
        got = cs.add_conditions(conds)
        ctx.check(len(got) == len(conds) and all(a == b for a, b in zip(got, conds)), "space-adds", "conditions")
    else:
        ctx.check(all(cs.add_condition(c) == c for c in conds), "space-adds", "condition")
    if rng.random() < 0.5:
        got = cs.add_forbidden_clauses(forbs)
        ctx.check(len(got) == len(forbs) and all(a == b for a, b in zip(got, forbs)), "space-adds", "clauses")
    else:
        ctx.check(all(cs.add_forbidden_clause(f) == f for f in forbs), "space-adds", "clause")
    judge_reports(ctx, spec, cs)
    ctx.check(cs == want and want == cs, "space-added-meaning")
    ctx.check([cfg_state(c) for c in cs.sample_configuration(5)] == [cfg_state(c) for c in want.sample_configuration(5)], "space-added-meaning", "samples")
    shot = snapshot(cs)
    # a name twice
    for call, item in ((cs.add_hyperparameter, hl[0]), (cs.add_hyperparameters, [hl[0]])):
        try:
            call(item)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok and snapshot(cs) == shot, "space-refuses")

    names = list(cs)
    ctx.check(cs.get_hyperparameter_names() == names and list(cs.get_hyperparameters_dict()) == names, "space-reads", "names")
    ctx.check([h.name for h in cs.get_hyperparameters()] == names and all(a is b for a, b in zip(cs.get_hyperparameters(), cs.values())), "space-reads", "hyperparameters")
    for i, n in enumerate(names):
        ctx.check(cs.get_hyperparameter(n) is cs[n] and cs.get_hyperparameters_dict()[n] is cs[n], "space-reads", lambda: n)
        ctx.check(cs.get_idx_by_hyperparameter_name(n) == cs.index_of[n] == i and cs.get_hyperparameter_by_idx(i) == n, "space-reads", lambda: f"position of {n}")
        for x in (n, cs[n]):
            ctx.check(
                list(cs.get_children_of(x)) == list(cs.children_of[n]) and list(cs.get_parents_of(x)) == list(cs.parents_of[n])
                and list(cs.get_child_conditions_of(x)) == list(cs.child_conditions_of[n])
                and list(cs.get_parent_conditions_of(x)) == list(cs.parent_conditions_of[n]),
                "space-family", lambda: f"{x}",
            )
    ctx.check(list(cs.get_conditions()) == list(cs.conditions) and list(cs.get_forbiddens()) == list(cs.forbidden_clauses), "space-reads", "conditions")
    ctx.check(
        list(cs.get_all_conditional_hyperparameters()) == list(cs.conditional_hyperparameters)
        and list(cs.get_all_unconditional_hyperparameters()) == list(cs.unconditional_hyperparameters), "space-reads", "conditional",
    )
    for bad in ("no such name",):
        for call in (cs.get_hyperparameter, cs.get_idx_by_hyperparameter_name, cs.get_children_of, cs.get_parents_of):
            try:
                call(bad)
                ok = False
            except (KeyError, ValueError):
                ok = True
            ctx.check(ok, "space-refuses", lambda: call.__name__)

    for c in cs.conditions:
        if hasattr(c, "components"):
            ctx.check(
                list(c.get_descendant_literal_conditions()) == list(c.dlcs) and [h.name for h in c.get_children()] == [c.child.name]
                and [h.name for h in c.get_parents()] == [h.name for h in c.parents]
                and list(c.get_children_vector()) == [cs.index_of[c.child.name]] and list(c.get_parents_vector()) == [cs.index_of[h.name] for h in c.parents],
                "condition-reads", lambda: f"{c}",
            )
    for f in cs.forbidden_clauses:
        if hasattr(f, "components"):
            ctx.check(list(f.get_descendant_literal_clauses()) == list(f.dlcs), "clauses", lambda: f"{f}")

    for i in range(8):
        try:
            v = random_values(rng, model, defs)
            bad = bool(model.forbidden(v))
        except Undecided:
            ctx.skip("rounding")
            continue
        vec = np.full(len(names), np.nan)
        for n, x in v.items():
            vec[cs.index_of[n]] = cs[n].to_vector(x)
        ctx.check(bool(c_util.check_forbidden(cs.forbidden_clauses, vec)) == bad, "clauses", lambda: f"{v}")
        if i % 2:
            w = rng.randrange(len(vec))
            vec[w] = rng.choice([np.nan, 0.5, 1.0, 7.0])
        conf = Configuration(cs, vector=vec)
        out = []
        for call in (lambda: conf.check_valid_configuration(), lambda: cs.check_configuration(conf), lambda: cs.check_configuration_vector_representation(vec), lambda: c_util.check_configuration(cs, vec)):
            try:
                call()
                out.append(None)
            except ValueError as e:
                out.append(type(e).__name__)
        ctx.check(len(set(out)) == 1, "space-checks", lambda: f"{vec}: {out}")
    for c in [cs.get_default_configuration(), *[cs.sample_configuration() for _ in range(3)]]:
        a, b = c.get_dictionary(), dict(c)
        ctx.check(list(a) == list(b) and all(same(a[k], b[k]) for k in b), "configuration", lambda: f"{a} {b}")
        a.clear()
        ctx.check(len(c) == len(b) and dict(c).keys() == b.keys(), "configuration", "changing the dictionary changed the configuration")
    for ind in (None, 2, 4):
        text = cs_json.write(cs) if ind is None else cs_json.write(cs, indent=ind)
        buf = io.StringIO()
        cs.to_json(buf, indent=2 if ind is None else ind)
        ctx.check(text == buf.getvalue(), "space-json", "text")
    back = cs_json.read(text)
    ctx.check(back == cs and canon_of(back) == canon_of(cs), "space-json", lambda: text)
    ctx.state(repr(spec))
    ctx.sample({"hyperparameters": names, "conditions": [shape(c) for c in spec["conds"]]})


def case_bounds(ctx, rng):
    """Many continuous hyperparameters from bounds."""
    n = rng.choice([1, 2, 5, 12])
    bounds = []
    for _ in range(n):
        lo = round(rng.uniform(-10, 10), 3)
        bounds.append((lo, round(lo + rng.uniform(0.1, 20), 3)))
    cs = ConfigurationSpace(seed=1)
    cs.generate_all_continuous_from_bounds(iter(bounds) if rng.random() < 0.5 else bounds)
    ok = sorted(cs) == sorted(f"x{i}" for i in range(n)) and all(
        type(cs[f"x{i}"]) is type(make_hp({"k": "ufloat", "name": "x", "lo": 0.0, "hi": 1.0})) and (cs[f"x{i}"].lower, cs[f"x{i}"].upper) == b and not cs[f"x{i}"].log
        for i, b in enumerate(bounds)
    )
    ctx.check(ok, "bounds", lambda: f"{bounds}: {cs}")
    for c in cs.sample_configuration(5):
        for i, (lo, hi) in enumerate(bounds):
            ctx.check(lo <= c[f"x{i}"] <= hi, "bounds", lambda: f"{c}")
    ctx.state("bounds", repr(bounds))


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [("hp", case_hp, 50, 1500), ("space", case_space, 25, 700), ("bounds", case_bounds, 4, 60)]
