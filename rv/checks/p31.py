"""P31: spaces made from the same parts do not influence each other."""
from __future__ import annotations

import ConfigSpace as C
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace.util import get_one_exchange_neighbourhood

from rv.build import make_cond, make_forb, make_hp, parts
from rv.model import HP, Model, Undecided, child_of, forb_names, parents_of
from rv.mon import cfg_state, check_config, snapshot
from rv.spec import acceptance, gen_cond, gen_hp, gen_spec, hard, prior_pools, shape
from rv.checks.p15 import judge_reports
from rv.checks.p19 import behaviour

RULE = "a state is a distinct (parts, ways of sharing them) of several spaces that were all judged against the reference model afterwards"
NEEDS = [
    "verdict:accepts", "verdict:rejects", "verdict:sample-valid", "verdict:unchanged", "verdict:neighbor-valid", "verdict:stored-unchanged", "verdict:same-samples",
    "share:objects", "share:reported", "share:components", "share:hyperparameters", "share:after", "other-layout", "with:condition", "with:clause", "with:conjunction",
]
ASSUMPTIONS = ["the parts themselves are not modified by the user", "shallow copies of a whole space are not claimed"]


def extra_hps(rng, names):
    """Names that come before, between and after the others, so that positions shift."""
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        nm = rng.choice(["", "!", "~"]) + rng.choice(["0", "a0", "hp0x", "zz", "A", "m"]) + str(rng.randrange(1000))
        if nm not in names and nm not in [d["name"] for d in out]:
            out.append(gen_hp(rng, nm, kinds=["cat", "uint", "ufloat", "ord"], small=True))
    return out


def judge(ctx, rng, spec, cs, where, n=8):
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    judge_reports(ctx, spec, cs)
    behaviour(ctx, rng, model, defs, spec, cs, n, where)
    got = cs.sample_configuration(4)
    for c in got:
        check_config(ctx, model, cs, c, "sample")
    check_config(ctx, model, cs, cs.get_default_configuration(), "default")
    if any(HP(d).size > 1 for d in spec["hps"]):
        for _, c in zip(range(6), get_one_exchange_neighbourhood(got[0], seed=rng.randrange(100))):
            check_config(ctx, model, cs, c, "neighbor")


def usable(rng, spec):
    """Whether a space of these parts can be built and sampled."""
    m = Model(spec)
    real = {d["name"]: make_hp(d).default_value for d in spec["hps"]}
    try:
        return not m.forbidden(m.default(real)) and acceptance(rng, m, prior_pools(rng, spec["hps"])) > 0.1
    except Undecided:
        return False


def case_share(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 3, 4, 6]), "small": True, "p_cond": rng.choice([0.5, 0.9]), "n_forb": rng.choice([1, 2, 3])} | kw))
    hps, conds, forbs = parts(spec)
    first = ConfigurationSpace(seed=1)
    first.add(list(hps.values()), conds, forbs)
    if spec["conds"]:
        ctx.event("with:condition")
    if spec["forbs"]:
        ctx.event("with:clause")
    if any(c[0] in ("AND", "OR") for c in spec["conds"]) or any(f[0] == "AND" for f in spec["forbs"]):
        ctx.event("with:conjunction")
    twin = ConfigurationSpace(seed=1)
    h2, c2, f2 = parts(spec)
    twin.add(list(h2.values()), c2, f2)
    stored = first.sample_configuration(3)
    twin.sample_configuration(3)
    before, states = snapshot(first), [cfg_state(c) for c in stored]
    spaces = [(spec, first, "first")]
    ways = []
    for i in range(rng.choice([1, 2, 3])):
        how = rng.choice(["objects", "objects", "reported", "components", "hyperparameters", "subset"])
        src_spec, src, _ = rng.choice(spaces)
        names = [d["name"] for d in src_spec["hps"]]
        more = extra_hps(rng, names)
        new = {"hps": src_spec["hps"] + more, "conds": list(src_spec["conds"]), "forbs": list(src_spec["forbs"])}
        by_name = {**{n: src[n] for n in names}, **{d["name"]: make_hp(d) for d in more}}
        cond_of = {c.child.name: c for c in src.conditions}
        cl, fl = [cond_of[child_of(c)] for c in src_spec["conds"]], list(src.forbidden_clauses)
        if how == "objects" and src is first:
            cl, fl = list(conds), list(forbs)
        elif how == "components":
            # new conjunctions with the objects of the other space as their parts
            out = []
            for c, obj in zip(new["conds"], cl):
                e = gen_cond(rng, child_of(c), rng.choice(more)) if more else None
                if e is None:
                    out.append((c, obj))
                    continue
                op = rng.choice(["AND", "OR"])
                cls = C.AndConjunction if op == "AND" else C.OrConjunction
                out.append(((op, [c, e]), cls(obj, make_cond(e, by_name))))
            new["conds"], cl = [c for c, _ in out], [o for _, o in out]
            fo = list(new["forbs"])
            if len(fo) >= 2 and src is first:
                new["forbs"] = [("AND", [fo[0], fo[1]]), *fo[2:]]
                fl = [C.ForbiddenAndConjunction(forbs[0], forbs[1]), *forbs[2:]]
            elif src is first:
                fl = list(forbs)
        elif how == "hyperparameters":
            # the same hyperparameters under other conditions and clauses
            new["conds"], new["forbs"] = [], []
            cl, fl = [], []
            kids = rng.sample(names, len(names) // 2)
            for k in kids:
                c = gen_cond(rng, k, rng.choice(more)) if more else None
                if c is not None:
                    new["conds"].append(c)
                    cl.append(make_cond(c, by_name))
        elif how == "subset":
            keep = [j for j in range(len(new["conds"])) if rng.random() < 0.5]
            new["conds"], cl = [new["conds"][j] for j in keep], [cl[j] for j in keep]
        ctx.note(spec=spec, how=how, new=new, i=i, ways=ways)
        if not usable(rng, new):
            ctx.skip("not-usable")
            continue
        cs = ConfigurationSpace(seed=rng.randrange(100))
        hl = list(by_name.values())
        rng.shuffle(hl)
        if rng.random() < 0.5:
            cs.add(hl, cl, fl)
        else:
            cs.add(hl)
            for x in cl + fl:
                cs.add(x)
        ctx.event("share:" + how)
        if any(src.index_of[n] != cs.index_of[n] for n in names):
            ctx.event("other-layout")
        ways.append((how, len(more)))
        spaces.append((new, cs, f"{how} {i}"))
        if rng.random() < 0.5:
            cs.sample_configuration(2)
    if len(spaces) == 1:
        return
    ctx.check(snapshot(first) == before, "unchanged", lambda: f"{before}\n{snapshot(first)}")
    ctx.check([cfg_state(c) for c in stored] == states, "stored-unchanged")
    order = list(spaces)
    rng.shuffle(order)
    for s, cs, where in order:
        judge(ctx, rng, s, cs, where)
    # a space made of its own parts only gives the same samples
    first.seed(5)
    twin.seed(5)
    a, b = [[cfg_state(c) for c in x.sample_configuration(6)] for x in (first, twin)]
    ctx.check(a == b, "same-samples", lambda: f"{a}\n{b}")
    for c in stored:
        c.check_valid_configuration()
        Configuration(first, values=dict(c))
    # one of them grows, the others stay
    ctx.event("share:after")
    k = rng.randrange(len(spaces))
    s, cs, _ = spaces[k]
    more = extra_hps(rng, [d["name"] for d in s["hps"]])
    cs.add([make_hp(d) for d in more])
    spaces[k] = ({**s, "hps": s["hps"] + more}, cs, "grown")
    for s, cs, where in spaces:
        judge(ctx, rng, s, cs, where, 4)
    ctx.state(repr(spec), repr(ways))
    ctx.sample({"conditions": [shape(c) for c in spec["conds"]], "ways": ways, "hyperparameters": [list(cs) for _, cs, _ in spaces]})


def case_refused(ctx, rng):
    """Parts that one space refused, or that were refused together, still work in another one."""
    spec = gen_spec(rng, n=rng.choice([3, 4, 5]), small=True, p_cond=0.7, n_forb=2)
    hps, conds, forbs = parts(spec)
    more = extra_hps(rng, list(hps))
    poor = ConfigurationSpace(seed=1)
    lack = rng.choice(list(hps))
    poor.add([h for n, h in hps.items() if n != lack], [make_hp(d) for d in more])
    for x in conds + forbs:
        try:
            poor.add(x)
        except ValueError:
            ctx.event("refused")
    ctx.note(spec=spec, lack=lack)
    full = ConfigurationSpace(seed=1)
    full.add(list(hps.values()), conds, forbs)
    judge(ctx, rng, spec, full, "after refusal")
    kept = {"hps": [d for d in spec["hps"] if d["name"] != lack] + more,
            "conds": [c for c in spec["conds"] if lack not in (child_of(c), *parents_of(c))], "forbs": [f for f in spec["forbs"] if lack not in forb_names(f)]}
    if len(poor.conditions) == len(kept["conds"]) and len(poor.forbidden_clauses) == len(kept["forbs"]) and usable(rng, kept):
        judge(ctx, rng, kept, poor, "poor")
    ctx.state(repr(spec), lack)


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [("share", case_share, 30, 800), ("hard", lambda ctx, rng: case_share(ctx, rng, **hard(rng)), 6, 200), ("refused", case_refused, 12, 300)]
