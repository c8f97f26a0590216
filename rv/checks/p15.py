"""P15: a space reports exactly what was added, in any order of adding."""
from __future__ import annotations

from collections import Counter

from ConfigSpace import ConfigurationSpace

from rv.build import make_cond, make_forb, make_hp
from rv.extract import canon, canon_cond, canon_forb, cond_spec, forb_spec, hp_spec, canon_hp, rep
from rv.model import Model, child_of, forb_names, parents_of
from rv.mon import fingerprint
from rv.spec import describe, gen_spec, hard, large

RULE = "a state is a distinct (space, order and grouping in which its parts were added) after which the reports were judged"
NEEDS = [
    "verdict:hyperparameters", "verdict:conditions", "verdict:clauses", "verdict:family", "verdict:positions", "verdict:parents-first",
    "verdict:equal", "verdict:same-layout", "verdict:same-samples", "added:one-by-one", "added:one-call", "added:grouped", "depth:3",
]
ASSUMPTIONS = ["the order in which children are listed is not claimed"]


def depths(model):
    out = {}
    for n in model.order:
        out[n] = 1 + max((out[p] for p in parents_of(model.cond[n])), default=0) if n in model.cond else 1
    return out


def judge_reports(ctx, spec, cs):
    """Everything a space reports against what was added to it."""
    model = Model(spec)
    hps = {d["name"]: d for d in spec["hps"]}
    names = list(cs)
    ctx.check(sorted(names) == sorted(hps) and len(cs) == len(hps), "hyperparameters", lambda: f"{names}, len {len(cs)}")
    ctx.check([h.name for h in cs.values()] == names and [k for k, _ in cs.items()] == names and list(cs.keys()) == names, "hyperparameters", "iteration")
    bad = []
    for n, d in hps.items():
        full = {**d, "def": d.get("def", make_hp(d).default_value)}
        if canon_hp(hp_spec(cs[n])) != canon_hp(full):
            bad.append((full, hp_spec(cs[n])))
        if n not in cs or cs.get(n) != cs[n]:
            bad.append((n, "access"))
        if "meta" in d and cs[n].meta != d["meta"]:
            bad.append((n, "meta", cs[n].meta))
    ctx.check(not bad, "hyperparameters", lambda: bad)
    ctx.check("no such name" not in cs and cs.get("no such name") is None, "hyperparameters", "unknown name")

    got = Counter(map(canon_cond, map(cond_spec, cs.conditions)))
    want = Counter(map(canon_cond, spec["conds"]))
    ctx.check(got == want, "conditions", lambda: f"extra {got - want}, missing {want - got}")
    got = Counter(map(canon_forb, map(forb_spec, cs.forbidden_clauses)))
    want = Counter(map(canon_forb, spec["forbs"]))
    ctx.check(got == want, "clauses", lambda: f"extra {got - want}, missing {want - got}")

    kids = {n: set() for n in hps}
    for c in spec["conds"]:
        for p in parents_of(c):
            kids[p].add(child_of(c))
    for n in hps:
        par = set(parents_of(model.cond[n])) if n in model.cond else set()
        p = [h.name for h in cs.parents_of[n]]
        k = [h.name for h in cs.children_of[n]]
        pc = [canon_cond(cond_spec(c)) for c in cs.parent_conditions_of[n]]
        cc = Counter(canon_cond(cond_spec(c)) for c in cs.child_conditions_of[n])
        wpc = {canon_cond(model.cond[n])} if n in model.cond else set()
        wcc = {canon_cond(model.cond[x]) for x in kids[n]}
        ctx.check(
            sorted(p) == sorted(par) and sorted(k) == sorted(kids[n]) and set(pc) == wpc and set(cc) == wcc, "family",
            lambda: f"{n}: parents {p} ({par}), children {k} ({kids[n]}), {pc} ({wpc}), {cc} ({wcc})",
        )
    ctx.check(
        sorted(cs.conditional_hyperparameters) == sorted(model.cond) and sorted(cs.unconditional_hyperparameters) == sorted(set(hps) - set(model.cond)),
        "family", lambda: f"{cs.conditional_hyperparameters}, {cs.unconditional_hyperparameters}",
    )
    ctx.check(list(cs.at) == names and all(cs.index_of[n] == i for i, n in enumerate(names)) and len(cs.index_of) == len(names), "positions", lambda: f"{names} {cs.at} {cs.index_of}")
    late = [(n, p) for n in model.cond for p in parents_of(model.cond[n]) if cs.index_of[p] >= cs.index_of[n]]
    ctx.check(not late, "parents-first", lambda: f"{late} in {names}")
    d = depths(model)
    ctx.event("depth:%d" % min(4, max(d.values(), default=0)))
    ctx.check(names == sorted(hps, key=lambda n: (d[n], n)), "layout", lambda: f"{names}, depths {d}")


def plan(rng, spec):
    """A random admissible order and grouping: list of lists of (kind, index)."""
    style = rng.choice(["one-call", "one-by-one", "one-by-one", "grouped", "grouped", "kinds"])
    items = [("h", i) for i in range(len(spec["hps"]))]
    if style == "one-call":
        rest = [("c", i) for i in range(len(spec["conds"]))] + [("f", i) for i in range(len(spec["forbs"]))]
        all_ = items + rest
        rng.shuffle(all_)
        return style, [all_]
    rng.shuffle(items)
    order, have = [], set()
    pend = [("c", i) for i in range(len(spec["conds"]))] + [("f", i) for i in range(len(spec["forbs"]))]
    rng.shuffle(pend)
    lazy = rng.random() < 0.5  # hyperparameters first

    def needs(x):
        if x[0] == "c":
            c = spec["conds"][x[1]]
            return {child_of(c), *parents_of(c)}
        return set(forb_names(spec["forbs"][x[1]]))

    for it in items:
        order.append(it)
        have.add(spec["hps"][it[1]]["name"])
        if lazy:
            continue
        for x in list(pend):
            if needs(x) <= have and rng.random() < 0.6:
                order.append(x)
                pend.remove(x)
    order += pend
    if style == "one-by-one":
        return style, [[x] for x in order]
    out = []
    while order:
        k = rng.randint(1, 5)
        g, order = order[:k], order[k:]
        rng.shuffle(g)
        out.append(g)
    return style, out


def nest(rng, xs):
    """The same items as arguments of one call, partly in lists and iterators."""
    r = rng.random()
    if r < 0.3 or len(xs) < 2:
        return xs
    if r < 0.5:
        return [xs]
    if r < 0.7:
        return [iter(xs)]
    m = len(xs) // 2
    return [tuple(xs[:m]), [[x] for x in xs[m:]]]


def admissible(spec, groups):
    """No clause excludes the default configuration of a space on the way."""
    real = {d["name"]: make_hp(d).default_value for d in spec["hps"]}
    cur = {"hps": [], "conds": [], "forbs": []}
    for g in groups:
        for k, i in sorted(g, key=lambda x: "hcf".index(x[0])):
            cur[{"h": "hps", "c": "conds", "f": "forbs"}[k]].append(spec[{"h": "hps", "c": "conds", "f": "forbs"}[k]][i])
        m = Model(cur)
        if m.forbidden(m.default({d["name"]: real[d["name"]] for d in cur["hps"]})):
            return False
    return True


def add_all(ctx, rng, spec, groups, seed, watch):
    cs = ConfigurationSpace(seed=seed)
    hps = {d["name"]: make_hp(d) for d in spec["hps"]}
    cur = {"hps": [], "conds": [], "forbs": []}
    for g in groups:
        objs = []
        for k, i in g:
            if k == "h":
                d = spec["hps"][i]
                objs.append(hps[d["name"]])
                cur["hps"].append(d)
            elif k == "c":
                objs.append(make_cond(spec["conds"][i], hps))
                cur["conds"].append(spec["conds"][i])
            else:
                objs.append(make_forb(spec["forbs"][i], hps))
                cur["forbs"].append(spec["forbs"][i])
        cs.add(*nest(rng, objs))
        if watch:
            judge_reports(ctx, cur, cs)
    return cs


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, meta=True, **kw)
    ctx.note(spec=spec)
    model = Model(spec)
    seed = rng.randrange(2**31)
    first = None
    for r in range(4):
        style, groups = plan(rng, spec)
        for _ in range(20):
            if admissible(spec, groups):
                break
            style, groups = plan(rng, spec)
        else:
            style, groups = "one-call", [[("h", i) for i in range(len(spec["hps"]))] + [("c", i) for i in range(len(spec["conds"]))] + [("f", i) for i in range(len(spec["forbs"]))]]
        ctx.event("added:" + style)
        ctx.note(groups=groups)
        cs = add_all(ctx, rng, spec, groups, seed, watch=r == 0 and rng.random() < 0.3)
        judge_reports(ctx, spec, cs)
        ctx.state(repr(spec), repr(groups))
        if first is None:
            first = cs
            continue
        ctx.check(cs == first and first == cs, "equal", lambda: f"{cs}\n{first}")
        ctx.check(list(cs) == list(first) and dict(cs.index_of) == dict(first.index_of) and list(cs.at) == list(first.at), "same-layout", lambda: f"{list(cs)} {list(first)}")
        ctx.check(dict(cs.get_default_configuration()) == dict(first.get_default_configuration()), "same-default")
        if r == 1:
            a = [(dict(c), c.get_array().tobytes()) for c in cs.sample_configuration(7)]
            b = [(dict(c), c.get_array().tobytes()) for c in first.sample_configuration(7)]
            ctx.check(a == b, "same-samples", lambda: f"{a}\n{b}")
            ctx.check([d for d, _ in a][0].keys() <= set(first), "same-samples")
    ctx.sample(describe(spec))


def case_deep(ctx, rng):
    case_random(ctx, rng, n=rng.choice([6, 9, 12]), p_cond=0.9, small=True)


def case_dense(ctx, rng):
    """Children with several parents on different depths, conditions added children first."""
    n = rng.choice([5, 7])
    names = list("abcdefg"[:n])
    rng.shuffle(names)
    hps = [{"k": rng.choice(["cat"]), "name": x, "choices": ["p", "q"]} for x in names]
    conds = []
    for i in range(1, n):
        ps = [rng.choice(names[:i]) for _ in range(rng.choice([1, 2, 3]))]
        ls = [("EQ", names[i], p, rng.choice(["p", "q"])) for p in ps]
        conds.append(ls[0] if len(ls) == 1 else (rng.choice(["AND", "OR"]), ls))
    spec = {"hps": hps, "conds": conds, "forbs": []}
    ctx.note(spec=spec)
    hpo = {d["name"]: make_hp(d) for d in hps}
    cs = ConfigurationSpace()
    cs.add(hpo.values())
    ctx.event("added:children-first")
    cur = []
    for c in reversed(conds):
        cs.add(make_cond(c, hpo))
        cur.append(c)
        judge_reports(ctx, {"hps": hps, "conds": cur, "forbs": []}, cs)
    ctx.state(repr(spec))


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("random", case_random, 60, 2500),
    ("deep", case_deep, 25, 800),
    ("dense", case_dense, 15, 500),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 4, 150),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 8, 250),
]
