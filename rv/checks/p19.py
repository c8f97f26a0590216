"""P19: adding a space into another keeps its meaning."""
from __future__ import annotations

from ConfigSpace import Configuration, ConfigurationSpace

from rv.build import build
from rv.extract import canon_hp, canon_of, hp_spec
from rv.model import HP, Model, Undecided
from rv.mon import check_config, snapshot
from rv.spec import gen_hp, gen_spec, hard, legal_value, prior_pools, random_values, shape
from rv.checks.p02 import mutate_values

RULE = "a state is a distinct (composed space, number of parts, nesting) whose contents and behaviour were compared"
NEEDS = [
    "verdict:contents", "verdict:accepts", "verdict:rejects", "verdict:source-untouched", "verdict:part-active-iff-parent", "verdict:part-valid-alone",
    "verdict:independent", "with:parent", "with:no-parent", "with:two-parts-of-one-source", "with:nested", "with:relation", "with:conditional-parent", "with:names-beginning-with-prefix", "verdict:refused-clash",
]
ASSUMPTIONS = ["names that equal the prefix or already start with prefix and delimiter are treated specially by the implementation and not generated here"]


def new_name(x, prefix, delim):
    # an unnamed one, as the choice of a component, is named like the component
    return f"{prefix}{delim}{x}" if x else prefix


def prefixed(spec, prefix, delim):
    def n(x):
        return new_name(x, prefix, delim)

    def cond(c):
        if c[0] in ("AND", "OR"):
            return (c[0], [cond(x) for x in c[1]])
        return (c[0], n(c[1]), n(c[2]), c[3])

    def forb(f):
        if f[0] == "AND":
            return ("AND", [forb(x) for x in f[1]])
        if f[0] in ("EQ", "IN"):
            return (f[0], n(f[1]), f[2])
        return (f[0], n(f[1]), n(f[2]))

    return {
        "hps": [{**d, "name": n(d["name"])} for d in spec["hps"]],
        "conds": [cond(c) for c in spec["conds"]],
        "forbs": [forb(f) for f in spec["forbs"]],
    }


def join(a, b, roots, parent, value):
    extra = [] if parent is None else [("EQ", r, parent, value) for r in roots]
    return {"hps": a["hps"] + b["hps"], "conds": a["conds"] + b["conds"] + extra, "forbs": a["forbs"] + b["forbs"]}


def roots_of(spec):
    kids = {c for c in Model(spec).cond}
    return [d["name"] for d in spec["hps"] if d["name"] not in kids]


def same_contents(ctx, got, want, where):
    """Compare a real space with a spec, using the objects of the spec itself for rounding and defaults."""
    ref = build(want)
    ctx.check(
        canon_of(got) == canon_of(ref) and got == ref and ref == got, "contents",
        lambda: f"{where}: got {got}\nwant {ref}",
    )


def behaviour(ctx, rng, model, defs, want, cs, n, where):
    for i in range(n):
        try:
            v = random_values(rng, model, defs)
            if i % 2:
                v = mutate_values(rng, model, defs, v)
            defects = model.defects(v)
        except Undecided:
            ctx.skip("rounding")
            continue
        try:
            Configuration(cs, values=v)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (not defects), "rejects" if defects else "accepts", lambda: f"{where}: {v}: accepted {ok}, defects {defects}")


def case_compose(ctx, rng, **kw):
    target = gen_spec(rng, n=rng.choice([1, 2, 4]), small=True)
    sources = [gen_spec(rng, **({"n": rng.choice([1, 2, 3, 5]), "small": True, "n_forb": rng.choice([0, 1, 2, 3]), "meta": "odd"} | kw)) for _ in range(rng.choice([1, 2]))]
    cs = build(target, seed=3, rng=rng)
    real = [build(s, seed=4, rng=rng) for s in sources]
    before = [snapshot(s) for s in real]
    want = target
    parts = []
    delims = [":", "__", ".", "-"]
    for i in range(rng.choice([1, 1, 2, 3])):
        si = rng.randrange(len(sources))
        if parts and rng.random() < 0.5:
            si = parts[-1]["source"]
            ctx.event("with:two-parts-of-one-source")
        delim = rng.choice(delims)
        prefix = rng.choice(["pre", "A", "zz", "p q", "1", "sub"]) + str(i)
        names = [d["name"] for d in sources[si]["hps"]]
        stem = rng.choice(names)[: rng.randint(1, 3)]
        used = {q["prefix"] for q in parts}
        if rng.random() < 0.4 and stem and stem not in used and not any(n == stem or n.startswith(stem + delim) for n in names):
            # names which begin with the prefix but not with the prefix and the delimiter
            prefix = stem
            ctx.event("with:names-beginning-with-prefix")
        taken = {d["name"] for d in want["hps"]}
        if any(new_name(n, prefix, delim) in taken for n in names):
            prefix = f"only{i}"
        parent = value = None
        if rng.random() < 0.6:
            p = rng.choice(want["hps"])
            parent, value = p["name"], legal_value(rng, p)
            if HP(p).is_float:
                parent = None
        sub = prefixed(sources[si], prefix, delim)
        roots = [new_name(r, prefix, delim) for r in roots_of(sources[si])]
        new = join(want, sub, roots, parent, value)
        defs = {d["name"]: d for d in new["hps"]}
        kw = {} if parent is None else {"parent_hyperparameter": {"parent": cs[parent], "value": value}}
        if parent is not None:
            ctx.event("with:parent")
            if parent in Model(want).cond:
                ctx.event("with:conditional-parent")
        else:
            ctx.event("with:no-parent")
        if any("'R" in repr(f) for f in sources[si]["forbs"]):
            ctx.event("with:relation")
        ctx.note(target=target, sources=sources, part=(si, prefix, delim, parent, value))
        if delim == ":" and rng.random() < 0.5:
            cs.add_configuration_space(prefix, real[si], **kw)
        else:
            cs.add_configuration_space(prefix, real[si], delimiter=delim, **kw)
        want = new
        parts.append({"source": si, "prefix": prefix, "delim": delim, "parent": parent, "value": value, "roots": roots})
    model = Model(want)
    same_contents(ctx, cs, want, "composed")
    for b, s in zip(before, real):
        ctx.check(snapshot(s) == b, "source-untouched", lambda: f"{b}\n{snapshot(s)}")
    behaviour(ctx, rng, model, defs, want, cs, 16, "composed")
    # sources keep working, the composed space is independent of them
    for sp, s in zip(sources, real):
        m = Model(sp)
        d = {x["name"]: x for x in sp["hps"]}
        behaviour(ctx, rng, m, d, sp, s, 4, "source")
        try:
            for c in s.sample_configuration(3):
                check_config(ctx, m, s, c, "source")
        except Undecided:
            ctx.skip("rounding")
    # behaviour of the parts within samples of the whole
    for c in cs.sample_configuration(rng.choice([5, 10])):
        v = dict(c)
        try:
            check_config(ctx, model, cs, c, "composed")
            for p in parts:
                pre = p["prefix"] + p["delim"]
                m = Model(sources[p["source"]])
                sub = {n: v[k] for n, k in ((n, new_name(n, p["prefix"], p["delim"])) for n in m.hps) if k in v}
                on = p["parent"] is None or (p["parent"] in v and v[p["parent"]] == p["value"])
                if on:
                    ctx.check(m.valid(sub), "part-valid-alone", lambda: f"{pre}: {sub}: {m.defects(sub)}")
                    Configuration(real[p["source"]], values=sub)
                ctx.check(bool(sub) == (on and bool(m.hps)), "part-active-iff-parent", lambda: f"{pre}: {v}")
        except Undecided:
            ctx.skip("rounding")
    # adding to the source afterwards does not reach the composed space
    shot = snapshot(cs)
    victim = real[parts[-1]["source"]]
    from rv.build import make_hp

    victim.add(make_hp(gen_hp(rng, "added later", small=True)))
    victim.seed(7)
    ctx.check(snapshot(cs) == shot, "independent", "adding to the source")
    # the same prefix again clashes and leaves everything as it was
    try:
        cs.add_configuration_space(parts[0]["prefix"], build(sources[parts[0]["source"]]), delimiter=parts[0]["delim"])
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok and snapshot(cs) == shot, "refused-clash")
    if rng.random() < 0.5:
        ctx.event("with:nested")
        outer = ConfigurationSpace(seed=1)
        outer.add_configuration_space("outer", cs, delimiter="/")
        w2 = prefixed(want, "outer", "/")
        same_contents(ctx, outer, w2, "nested")
        behaviour(ctx, rng, Model(w2), {x["name"]: x for x in w2["hps"]}, w2, outer, 8, "nested")
        ctx.check(snapshot(cs) == shot, "source-untouched", "nested")
    ctx.state(repr(want))
    ctx.sample({"parts": [(p["prefix"], p["delim"], p["parent"]) for p in parts], "hyperparameters": list(cs)})


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [("compose", case_compose, 50, 1500), ("hard", lambda ctx, rng: case_compose(ctx, rng, **hard(rng)), 8, 300)]
