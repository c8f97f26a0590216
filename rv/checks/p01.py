"""P01: every sampled configuration is valid."""
from __future__ import annotations

import glob
import os

from ConfigSpace import Configuration

from rv.build import build, parts
from rv.core import REPO
from rv.extract import Unsupported, spec_of
from rv.model import Model, child_of, forb_names
from rv.mon import check_config, fingerprint
from rv.spec import acceptance, describe, gen_spec, hard, prior_pools

RULE = (
    "a state is a distinct (space, set of active hyperparameters, discrete values) that "
    "sampling returned and the reference model judged, for spaces with at least one "
    "condition or forbidden clause"
)
NEEDS = ["verdict:sample-valid", "verdict:sample-count", "inactive-hyperparameters", "space:forbidden", "space:condition", "many", "rare"]
ASSUMPTIONS = [
    "spaces whose forbidden clauses leave at least about 5 % of random assignments valid (0.5 % in one case)",
    "float comparisons closer than 1e-9 are left undecided",
]


def draw(ctx, cs, size):
    if size is None:
        c = cs.sample_configuration()
        ctx.check(isinstance(c, Configuration), "sample-count", lambda: f"None -> {type(c)}")
        return [c]
    out = cs.sample_configuration(size)
    if size == 1:
        one = isinstance(out, Configuration)
        ctx.check(one or len(out) == 1, "sample-count", lambda: f"1 -> {out}")
        return [out] if one else list(out)
    ctx.check(len(out) == size, "sample-count", lambda: f"{size} -> {len(out)}")
    return list(out)


def watch(ctx, model, cs, spec, configs):
    nontrivial = bool(spec["conds"] or spec["forbs"])
    key = repr(describe(spec)) + repr(sorted(model.hps))
    for c in configs:
        check_config(ctx, model, cs, c, "sample")
        ctx.event("sampled")
        if nontrivial:
            ctx.state(key, fingerprint(model, dict(c)))


def count_kind(ctx, spec):
    if spec["conds"]:
        ctx.event("space:condition")
    if spec["forbs"]:
        ctx.event("space:forbidden")
    for d in spec["hps"]:
        ctx.event("hp:" + d["k"])


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **kw)
    ctx.note(spec=spec)
    count_kind(ctx, spec)
    model = Model(spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    for _ in range(3):
        size = rng.choice([None, 1, 2, 3, 10, 25, 60])
        watch(ctx, model, cs, spec, draw(ctx, cs, size))
    ctx.check(len(list(cs.sample_configuration(0))) == 0, "sample-count")
    ctx.sample(describe(spec))


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([5, 7, 9]), p_cond=0.95, small=True, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


def case_forbidden(ctx, rng):
    case_random(ctx, rng, n=rng.choice([3, 5, 6]), p_cond=rng.choice([0.2, 0.7]), n_forb=rng.choice([4, 8, 12]), small=True,
                accept=0.05, kinds=["cat", "cat", "ord", "uint", "ufloat", "const", "nint"])


def case_big(ctx, rng):
    case_random(ctx, rng, n=rng.choice([15, 20, 25]), p_cond=rng.choice([0.4, 0.8]), n_forb=rng.choice([0, 5]))


def case_grow(ctx, rng):
    """Sampling in between of growing the space."""
    from ConfigSpace import ConfigurationSpace

    spec = gen_spec(rng, n=rng.choice([4, 6, 8]), p_cond=0.7, small=True)
    ctx.note(spec=spec)
    count_kind(ctx, spec)
    hps, conds, forbs = parts(spec)
    pools = prior_pools(rng, spec["hps"])
    cs = ConfigurationSpace(seed=rng.randrange(2**31))
    cur = {"hps": [], "conds": [], "forbs": []}
    for d in spec["hps"]:
        cs.add(hps[d["name"]])
        cur["hps"].append(d)
        names = {x["name"] for x in cur["hps"]}
        for c, rc in zip(spec["conds"], conds):
            if child_of(c) == d["name"]:
                cs.add(rc)
                cur["conds"].append(c)
        # clauses whose default stays allowed at this point
        for f, rf in zip(spec["forbs"], forbs):
            if f not in cur["forbs"] and set(forb_names(f)) <= names and rng.random() < 0.7:
                m = Model({**cur, "forbs": [*cur["forbs"], f]})
                dflt = {n: hp.default_value for n, hp in cs.items()}
                if m.forbidden(m.default(dflt)) or acceptance(rng, m, pools) < 0.1:
                    continue
                cs.add(rf)
                cur["forbs"].append(f)
        snap = {k: list(v) for k, v in cur.items()}
        watch(ctx, Model(snap), cs, snap, draw(ctx, cs, rng.choice([None, 2, 8])))


def case_many(ctx, rng):
    """Many samples in one call."""
    spec = gen_spec(rng, n=rng.choice([1, 2, 3]), p_cond=0.5, n_forb=rng.choice([0, 1, 3]), small=True, accept=0.3)
    ctx.note(spec=spec)
    count_kind(ctx, spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    size = rng.choice([1000, 2500, 4097, 5000, 9000])
    out = draw(ctx, cs, size)
    watch(ctx, Model(spec), cs, spec, rng.sample(out, 150) + out[-20:])
    ctx.event("many")


def case_rare(ctx, rng):
    """Clauses which leave few of the possible assignments, so that most draws are thrown away."""
    n = rng.choice([30, 60, 120])
    keep = rng.sample(range(n), rng.choice([1, 1, 2]))
    d = {"k": rng.choice(["cat", "ord"]), "name": rng.choice("ab")}
    d["choices" if d["k"] == "cat" else "seq"] = list(range(n))
    d["def"] = keep[0]
    e = {"k": "cat", "name": "m", "choices": ["x", "y", "z"], "def": "y"}
    spec = {"hps": [d, e], "conds": [], "forbs": [("IN", d["name"], [i for i in range(n) if i not in keep])]}
    if rng.random() < 0.5:
        spec["forbs"].append(("AND", [("EQ", d["name"], keep[0]), ("EQ", "m", "x")]))
    ctx.note(spec=spec)
    count_kind(ctx, spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    watch(ctx, Model(spec), cs, spec, draw(ctx, cs, rng.choice([None, 1, 3, 20, 60, 60, 120])))
    ctx.event("rare")


def case_unsorted(ctx, rng):
    """Deep graphs: a child of parents on very different depths, or-conditions on
    parents of which some are inactive."""
    n = rng.choice([5, 6, 7])
    names = list("abcdefgh"[:n])
    rng.shuffle(names)
    hps = [{"k": "cat", "name": x, "choices": ["p", "q", "r"]} for x in names]
    conds = []
    for i in range(1, n):
        pi = [names[j] for j in range(i)]
        k = rng.choice([1, 2, 3])
        ps = [rng.choice(pi) for _ in range(k)]
        cs_ = [(rng.choice(["EQ", "NE"]), names[i], p, rng.choice(["p", "q", "r"])) for p in ps]
        if k == 1:
            conds.append(cs_[0])
        elif k == 2 or rng.random() < 0.5:
            conds.append((rng.choice(["AND", "OR", "OR"]), cs_))
        else:
            conds.append((rng.choice(["AND", "OR"]), [cs_[0], (rng.choice(["AND", "OR"]), cs_[1:])]))
    spec = {"hps": hps, "conds": conds, "forbs": []}
    ctx.note(spec=spec)
    count_kind(ctx, spec)
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    watch(ctx, Model(spec), cs, spec, draw(ctx, cs, 40))


def pcs_files():
    from ConfigSpace.read_and_write import pcs, pcs_new

    out = []
    root = os.path.join(REPO, "test", "test_searchspaces")
    for path in sorted(glob.glob(os.path.join(root, "*.pcs"))):
        with open(path) as f:
            lines = f.read().split("\n")
        for mod in (pcs, pcs_new):
            try:
                out.append((os.path.basename(path), mod.read(lines)))
                break
            except Exception:  # noqa: BLE001
                continue
    return out


def case_files(ctx, rng):
    """Search spaces of real tools shipped with the tests."""
    files = pcs_files()
    for i, (name, cs) in enumerate(files):
        if i % 8 != ctx.shard:
            continue
        try:
            spec = spec_of(cs)
        except Unsupported:
            ctx.skip("file-unsupported")
            continue
        ctx.note(file=name)
        count_kind(ctx, spec)
        ctx.event("file")
        cs.seed(rng.randrange(2**31))
        watch(ctx, Model(spec), cs, spec, draw(ctx, cs, 20 if len(cs) > 50 else 60))


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("unsorted", case_unsorted, 60, 1500),
    ("random", case_random, 60, 2500),
    ("nested", case_nested, 30, 1200),
    ("forbidden", case_forbidden, 40, 1200),
    ("grow", case_grow, 15, 400),
    ("big", case_big, 6, 200),
    ("files", case_files, 1, 5),
    ("many", case_many, 2, 40),
    ("rare", case_rare, 4, 100),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 15, 500),
]
