"""P29: equality and copies of definitions are sound."""
from __future__ import annotations

import copy
import pickle

import ConfigSpace as C
import numpy as np
from ConfigSpace import Configuration

from rv.build import build, make_cond, make_forb, make_hp
from rv.checks.p16 import fresh, trial_default
from rv.extract import canon_cond, canon_forb, canon_hp, cond_spec, forb_spec, hp_spec
from rv.hpgen import KINDS, wide_hp
from rv.model import HP, INTS, Model, Undecided, child_of, same
from rv.mon import snapshot
from rv.spec import close_value, describe, fshape, gen_forb, gen_full_cond, gen_hp, gen_spec, hard, hard_hp, large, legal_value, long_cond, long_forb, nice, shape

RULE = "a state is a distinct (kind of definition, what was varied or how it was copied, its parameters) whose equality was judged in both directions"
HP_FIELDS = ["name", "lo", "hi", "log", "mu", "sigma", "alpha", "beta", "def", "choices", "choices-more", "seq", "seq-order", "weights", "value", "kind"]
NEEDS = [
    "verdict:reflexive", "verdict:same-equal", "verdict:reordered-equal", "verdict:differs", "verdict:copy-equal", "verdict:copy-same", "verdict:copy-independent", "verdict:foreign",
    "verdict:equal-accepts", "verdict:equal-samples", "verdict:updated",
    *("hp:" + f for f in HP_FIELDS), "cond:op", "cond:child", "cond:parent", "cond:value", "cond:connective", "cond:part", "cond:domain", "forb:domain",
    "forb:op", "forb:name", "forb:value", "forb:part", "forb:relation", "forb:sides",
    "space:hp", "space:extra-hp", "space:no-cond", "space:cond", "space:no-forb", "space:forb", "space:extra-forb", "space:name", "space:extra-cond",
    *("copied:" + k for k in KINDS),
]
ASSUMPTIONS = [
    "the order of choices of a categorical, meta data and the order of parts of a conjunction are not claimed to matter or not to matter",
    "the standard shallow copy of a whole space shares its contents and is not claimed to be independent",
]

COPIES = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}


def equal(ctx, a, b, kind, info):
    ctx.check((a == b) is True and (b == a) is True and not (a != b) and not (b != a), kind, lambda: f"{info}: {a} / {b}: {a == b} {b == a} {a != b} {b != a}")


def differ(ctx, a, b, info):
    ctx.check((a == b) is False and (b == a) is False and bool(a != b) and bool(b != a), "differs", lambda: f"{info}: {a} / {b}: {a == b} {b == a} {a != b} {b != a}")


def other_of(rng, xs):
    for _ in range(50):
        v = rng.choice(["another", 991, 0.123, "zz", -77, 55.5])
        x = rng.choice(xs)
        if rng.random() < 0.4:
            # easily taken for the one it replaces
            v = str(x) if not isinstance(x, str) else rng.choice([x + " ", x.upper(), x.lower(), x + x[:1]])
        if not any(same(v, x) for x in xs):
            return v
    raise AssertionError


def vary_hp(rng, d, only=None):
    """A variation in one parameter: (field, definition)."""
    d = copy.deepcopy(d)
    k = d["k"]
    fields = ["name"]
    if "lo" in d:
        fields += ["lo", "hi", "log", "def", "kind"]
        fields += {"n": ["mu", "sigma"], "b": ["alpha", "beta"]}.get(k[0], [])
        span = d["hi"] - d["lo"]
        integer = k in INTS
    elif k == "cat":
        fields += ["choices", "choices-more", "weights", "kind"] + (["def"] if len(d["choices"]) > 1 else [])
    elif k == "ord":
        fields += ["seq", "kind"] + (["def", "seq-order"] if len(d["seq"]) > 1 else [])
    else:
        fields += ["value"]
    f = rng.choice(only or fields)
    if f not in fields:
        f = rng.choice(fields)
    if f == "name":
        d["name"] += rng.choice(["x", " ", "_", "0"])
    elif f == "lo":
        d["lo"] = d["lo"] - (rng.choice([1, 5]) if integer else span * rng.choice([0.5, 0.001])) if not d["log"] else (d["lo"] / 2 if not integer else d["lo"] - 1)
        if integer and d["log"] and d["lo"] < 1:
            d["lo"], f, d["hi"] = 1, "hi", d["hi"] + 1
    elif f == "hi":
        d["hi"] = d["hi"] + (rng.choice([1, 5]) if integer else span * rng.choice([0.5, 0.001]))
    elif f == "log":
        if not d["log"] and d["lo"] <= 0:
            return None
        if d.get("mu", 1) <= 0:
            return None
        d["log"] = not d["log"]
    elif f == "mu":
        d["mu"] = d["mu"] + span * 0.25 if d["mu"] < d["lo"] + span / 2 else d["mu"] - span * 0.25
        if integer:
            d["mu"] = float(d["mu"])
    elif f == "sigma":
        d["sigma"] = d["sigma"] * rng.choice([0.5, 1.25, 3, 1.0001])
    elif f in ("alpha", "beta"):
        d[f] = d[f] + rng.choice([0.5, 1, 4, 0.001])
    elif f == "def":
        cur = make_hp(d).default_value
        for _ in range(30):
            v = legal_value(rng, d) if rng.random() < 0.6 else close_value(rng, d, cur)
            if not same(v, cur) and not (HP(d).is_float and abs(v - cur) < 1e-6 * max(1, abs(cur), span)):
                d["def"] = v
                break
        else:
            return None
    elif f == "choices":
        i = rng.randrange(len(d["choices"]))
        d["choices"] = list(d["choices"])
        if "def" in d and same(d["def"], d["choices"][i]):
            d.pop("def")
        d["choices"][i] = other_of(rng, d["choices"])
    elif f == "choices-more":
        d["choices"] = [*d["choices"], other_of(rng, d["choices"])]
        if d.get("weights"):
            d["weights"] = [*d["weights"], rng.choice([0.0, 1.0])]
    elif f == "seq":
        i = rng.randrange(len(d["seq"]))
        d["seq"] = list(d["seq"])
        if "def" in d and same(d["def"], d["seq"][i]):
            d.pop("def")
        d["seq"][i] = other_of(rng, d["seq"])
    elif f == "seq-order":
        i = rng.randrange(len(d["seq"]) - 1)
        d["seq"] = list(d["seq"])
        d["def"] = make_hp(d).default_value
        d["seq"][i], d["seq"][i + 1] = d["seq"][i + 1], d["seq"][i]
    elif f == "weights":
        n = len(d["choices"])
        if n < 2:
            return None
        d["def"] = make_hp(d).default_value
        w = list(d.get("weights") or [1.0] * n)
        i = rng.randrange(n)
        w[i] = w[i] * 2 + 0.7 if rng.random() < 0.6 else w[i] + 1e-3 * sum(w)
        if sum(1 for x in w if x) == 1 and sum(1 for x in (d.get("weights") or w) if x) == 1:
            return None
        d["weights"] = w
    elif f == "value":
        d["value"] = other_of(rng, [d["value"]])
    elif f == "kind":
        if k == "cat":
            v = make_hp(d).default_value
            d = {"k": "ord", "name": d["name"], "seq": list(d["choices"]), "def": v}
        elif k == "ord":
            v = make_hp(d).default_value
            d = {"k": "cat", "name": d["name"], "choices": list(d["seq"]), "def": v}
        else:
            v = make_hp(d).default_value
            mid = (d["lo"] + d["hi"]) // 2 if integer else (d["lo"] + d["hi"]) / 2
            opts = [x for x in (("uint", "nint", "bint") if integer else ("ufloat", "nfloat", "bfloat")) if x != k]
            d = {"k": rng.choice(opts), "name": d["name"], "lo": d["lo"], "hi": d["hi"], "log": d["log"], "def": v}
            if d["k"][0] == "n":
                d["mu"], d["sigma"] = max(mid, d["lo"]), max(span, 1)
            if d["k"][0] == "b":
                d["alpha"], d["beta"] = 2, 3
    if d["k"][0] == "n" and d["log"] and abs(d["lo"] + d["sigma"] - 1) < 1e-6:
        return None  # no spread at all, see known finding log-normal-zero-spread of P08
    return f, d


def judge_copy(ctx, a, canon, how, info):
    b = COPIES[how](a)
    ctx.event("how:" + how)
    equal(ctx, a, b, "copy-equal", f"{how} of {info}")
    ctx.check(type(b) is type(a) and canon(a) == canon(b), "copy-same", lambda: f"{how} of {info}: {canon(b)}")
    return b


def case_hp(ctx, rng):
    d = wide_hp(rng, rng.choice(["h", "a b", "x:y"]))
    ctx.note(spec=d)
    a, b = make_hp(d), make_hp(copy.deepcopy(d))
    canon = lambda h: canon_hp(hp_spec(h))  # noqa: E731
    equal(ctx, a, a, "reflexive", "itself")
    equal(ctx, a, b, "same-equal", "the same definition")
    for x in (3, None, d["name"], object(), a.default_value):
        ctx.check(not (a == x) and a != x, "foreign", lambda: f"{a} == {x!r}")
    # use must not change what a hyperparameter is equal to
    seed = rng.randrange(2**31)
    if rng.random() < 0.5:
        vec = b.sample_vector(3, seed=np.random.RandomState(seed))
        b.pdf_vector(vec)
        b.get_max_density()
        b.to_value(vec)
        if b.size > 1:
            b.neighbors_vectorized(vec[0], 2, seed=np.random.RandomState(seed))
        equal(ctx, a, b, "same-equal", "after use")
    ctx.event("copied:" + d["k"])
    before = canon(a)
    for how in COPIES:
        c = judge_copy(ctx, a, canon, how, str(d))
        s = [list(h.sample_value(6, seed=np.random.RandomState(seed))) for h in (a, c)]
        ctx.check(all(same(x, y) for x, y in zip(*s)), "copy-same", lambda: f"{how} of {d}: samples {s}")
        c.name = "renamed"
        ctx.check(canon(a) == before, "copy-independent", lambda: f"{how}: renaming the copy gave {a}")
        differ(ctx, a, c, f"{how} renamed")
    c = a.copy()
    equal(ctx, a, c, "copy-equal", f"copy() of {d}")
    ctx.check(canon(a) == canon(c) and c.meta == a.meta, "copy-same", lambda: f"copy() of {d}: {c}")
    for _ in range(6):
        r = vary_hp(rng, d)
        if r is None:
            continue
        f, e = r
        v = make_hp(e)
        ctx.event("hp:" + f)
        differ(ctx, a, v, f"{f}: {d} / {e}")
        for how in COPIES:
            differ(ctx, COPIES[how](a), v, f"{f}: {how} of {d} / {e}")
        if f in ("name", "sigma", "alpha", "beta", "log", "mu") and "def" in d:
            key = {"log": "log"}.get(f, f)
            u = a.copy(**{key: e[key]})
            equal(ctx, u, v, "updated", f"copy({key}={e[key]}) of {d}")
        ctx.state(d["k"], f, repr(d), repr(e))
    # transitive
    e = make_hp(copy.deepcopy(d))
    ctx.check(a == b and b == e and a == e, "same-equal", "transitive")
    ctx.sample(d)


def cond_atoms(c, path=()):
    if c[0] in ("AND", "OR"):
        for i, x in enumerate(c[1]):
            yield from cond_atoms(x, (*path, i))
    else:
        yield path, c


def as_set(c):
    """Canonical form in which repeated parts of a conjunction count once."""
    if c[0] in ("AND", "OR") and isinstance(c[1], list):
        return (c[0], frozenset(as_set(x) for x in c[1]))
    return repr(canon_cond(c) if len(c) == 4 else canon_forb(c))


def at(c, path, fn):
    if not path:
        return fn(c)
    parts = list(c[1])
    parts[path[0]] = at(parts[path[0]], path[1:], fn)
    return (c[0], parts)


def vary_value(rng, d, v):
    for _ in range(30):
        w = legal_value(rng, d) if rng.random() < 0.5 else close_value(rng, d, v)
        if not same(v, w) and not (HP(d).is_float and abs(v - w) < 1e-6):
            return w
    return None


def vary_cond(rng, c, defs, child2):
    """(what, cond) with exactly one difference, or None."""
    what = rng.choice(["op", "child", "parent", "value", "value", "connective", "part"])
    if what == "child":
        ren = lambda x: (x[0], [ren(y) for y in x[1]]) if x[0] in ("AND", "OR") else (x[0], child2, *x[2:])  # noqa: E731
        return what, ren(c)
    if what in ("connective", "part"):
        if c[0] not in ("AND", "OR"):
            return None
        if what == "connective":
            return what, ("OR" if c[0] == "AND" else "AND", c[1])
        if len(c[1]) > 2:
            return what, (c[0], c[1][:-1])
        extra = ("EQ", child_of(c), child_of(c) + " extra", "u")
        return what, (c[0], [*c[1], extra])
    path, a = rng.choice(list(cond_atoms(c)))
    if what == "op":
        if a[0] == "IN":
            return what, at(c, path, lambda x: ("EQ", x[1], x[2], x[3][0]))
        alt = {"EQ": "NE", "NE": "EQ", "LT": "GT", "GT": "LT"}[a[0]]
        return what, at(c, path, lambda x: (alt, *x[1:]))
    if what == "value":
        d = defs[a[2]]
        if a[0] == "IN":
            w = vary_value(rng, d, a[3][0])
            if w is None or any(same(w, x) for x in a[3]):
                if len(a[3]) < 2:
                    return None
                return what, at(c, path, lambda x: ("IN", x[1], x[2], x[3][1:]))
            return what, at(c, path, lambda x: ("IN", x[1], x[2], [w, *x[3][1:]] if rng.random() < 0.5 else [*x[3], w]))
        w = vary_value(rng, d, a[3])
        if w is None:
            return None
        return what, at(c, path, lambda x: (*x[:3], w))
    return "parent", at(c, path, lambda x: (x[0], x[1], x[2] + " twin", x[3]))


def other_domain(ctx, rng, a, ds, names, make, info):
    """The same condition or clause on hyperparameters one of which is defined differently."""
    i = rng.choice([i for i, d in enumerate(ds) if d["name"] in names])
    r = vary_hp(rng, ds[i])
    if r is None or r[0] == "name":
        return
    es = [*ds[:i], r[1], *ds[i + 1:]]
    try:
        v = make({d["name"]: make_hp(d) for d in es})
    except (ValueError, TypeError):
        ctx.skip("not-possible:domain")
        return
    ctx.event(("cond" if isinstance(a, (C.conditions.Condition, C.conditions.Conjunction)) else "forb") + ":domain")
    differ(ctx, a, v, f"{r[0]} of {ds[i]['name']}: {info}: {ds[i]} / {r[1]}")
    ctx.state("domain", repr(info), repr(ds[i]), repr(r[1]))


def case_cond(ctx, rng):
    ds = []
    for n in ("p", "q", "r"):
        ds.append(gen_hp(rng, n) if rng.random() < 0.6 else hard_hp(rng, n, ds))
    defs = {d["name"]: d for d in ds}
    c = gen_full_cond(rng, "c", ds) if rng.random() < 0.7 else long_cond(rng, "c", ds)
    ctx.note(spec=ds, cond=c)
    extra = [{"k": "uint", "name": n, "lo": 0, "hi": 9, "log": False} for n in ("c", "c2")]
    extra += [{**d, "name": d["name"] + " twin"} for d in ds]
    extra += [{"k": "cat", "name": "c extra", "choices": ["u", "v"]}]
    mk = lambda: {d["name"]: make_hp(d) for d in [*ds, *extra]}  # noqa: E731
    a, b = make_cond(c, mk()), make_cond(copy.deepcopy(c), mk())
    equal(ctx, a, a, "reflexive", "itself")
    equal(ctx, a, b, "same-equal", f"{c}")
    for x in (3, None, "c", object()):
        ctx.check(not (a == x) and a != x, "foreign", lambda: f"{a} == {x!r}")
    canon = lambda x: canon_cond(cond_spec(x))  # noqa: E731
    before = canon(a)
    for how in COPIES:
        u = judge_copy(ctx, a, canon, how, str(c))
        u.set_vector_idx({n: i for i, n in enumerate(defs | {"c": 1})})
        ctx.check(canon(a) == before, "copy-independent", lambda: f"{how} of {c}: {a}")
    for _ in range(3):
        names = {"c", *(x[2] for _, x in cond_atoms(c))}
        other_domain(ctx, rng, a, [*ds, *extra], names, lambda h: make_cond(c, h), c)
    for _ in range(6):
        r = vary_cond(rng, c, defs, "c2")
        if r is None:
            continue
        what, e = r
        if as_set(e) == as_set(c):
            continue
        ctx.event("cond:" + what)
        try:
            v = make_cond(e, mk())
        except ValueError:
            ctx.skip("not-possible:" + what)
            continue
        differ(ctx, a, v, f"{what}: {c} / {e}")
        ctx.state("cond", what, shape(c), repr(c), repr(e))


def forb_atoms(f, path=()):
    if f[0] == "AND":
        for i, x in enumerate(f[1]):
            yield from forb_atoms(x, (*path, i))
    else:
        yield path, f


def vary_forb(rng, f, defs):
    what = rng.choice(["op", "name", "value", "value", "part", "relation", "sides"])
    if what == "part":
        if f[0] != "AND":
            return None
        if len(f[1]) > 1 and rng.random() < 0.5:
            i = rng.randrange(len(f[1]))
            return what, ("AND", [x for j, x in enumerate(f[1]) if j != i])
        return what, ("AND", [*f[1], ("EQ", "extra", "u")])
    path, a = rng.choice(list(forb_atoms(f)))
    rel = a[0] in ("RLT", "REQ", "RGT")
    if what in ("relation", "sides"):
        if not rel:
            return None
        if what == "relation":
            op = rng.choice([x for x in ("RLT", "REQ", "RGT") if x != a[0]])
            return what, at(f, path, lambda x: (op, *x[1:]))
        return what, at(f, path, lambda x: (x[0], x[2], x[1]))
    if rel:
        return "name", at(f, path, lambda x: (x[0], x[1] + " twin", x[2]) if rng.random() < 0.5 else (x[0], x[1], x[2] + " twin"))
    if what == "op":
        return what, at(f, path, lambda x: ("IN", x[1], [x[2]]) if x[0] == "EQ" else ("EQ", x[1], x[2][0]))
    if what == "name":
        return what, at(f, path, lambda x: (x[0], x[1] + " twin", x[2]))
    d = defs[a[1]]
    if a[0] == "EQ":
        w = vary_value(rng, d, a[2])
        return None if w is None else (what, at(f, path, lambda x: ("EQ", x[1], w)))
    w = vary_value(rng, d, a[2][0])
    if w is None or any(same(w, x) for x in a[2]):
        return (what, at(f, path, lambda x: ("IN", x[1], x[2][1:]))) if len(a[2]) > 1 else None
    return what, at(f, path, lambda x: ("IN", x[1], [w, *x[2][1:]] if rng.random() < 0.5 else [*x[2], w]))


def case_forb(ctx, rng):
    ds = []
    for n in ("p", "q", "r", "s"):
        ds.append(gen_hp(rng, n) if rng.random() < 0.6 else hard_hp(rng, n, ds))
    defs = {d["name"]: d for d in ds}
    f = gen_forb(rng, ds) if rng.random() < 0.7 else long_forb(rng, ds)
    ctx.note(spec=ds, forb=f)
    extra = [{**d, "name": d["name"] + " twin"} for d in ds] + [{"k": "cat", "name": "extra", "choices": ["u", "v"]}]
    mk = lambda: {d["name"]: make_hp(d) for d in [*ds, *extra]}  # noqa: E731
    a, b = make_forb(f, mk()), make_forb(copy.deepcopy(f), mk())
    equal(ctx, a, a, "reflexive", "itself")
    equal(ctx, a, b, "same-equal", f"{f}")
    for x in (3, None, "p", object()):
        ctx.check(not (a == x) and a != x, "foreign", lambda: f"{a} == {x!r}")
    canon = lambda x: canon_forb(forb_spec(x))  # noqa: E731
    for how in COPIES:
        judge_copy(ctx, a, canon, how, str(f))
    if f[0] in ("EQ", "IN"):
        c = copy.copy(a)
        c.hyperparameter.name = "renamed"
        ctx.check(a.hyperparameter.name == f[1], "copy-independent", lambda: f"renaming the hyperparameter of the copy gave {a}")
    for _ in range(3):
        names = {n for _, x in forb_atoms(f) for n in ([x[1], x[2]] if x[0][0] == "R" else [x[1]])}
        other_domain(ctx, rng, a, [*ds, *extra], names, lambda h: make_forb(f, h), f)
    for _ in range(6):
        r = vary_forb(rng, f, defs)
        if r is None:
            continue
        what, e = r
        if as_set(e) == as_set(f) or what == "op" and f[0] == "AND":
            continue
        if what == "sides" and any(x[0] == "REQ" for _, x in forb_atoms(f)):
            continue
        ctx.event("forb:" + what)
        differ(ctx, a, make_forb(e, mk()), f"{what}: {f} / {e}")
        ctx.state("forb", what, fshape(f), repr(f), repr(e))


def vary_space(rng, spec, model, defs):
    what = rng.choice(["hp", "hp", "extra-hp", "no-cond", "cond", "extra-cond", "no-forb", "forb", "extra-forb", "name"])
    sp = copy.deepcopy(spec)
    used = {n for c in spec["conds"] for n in [child_of(c), *[a[2] for _, a in cond_atoms(c)]]}
    used |= {n for f in spec["forbs"] for _, a in forb_atoms(f) for n in ([a[1], a[2]] if a[0][0] == "R" else [a[1]])}
    if what == "name":
        return what, sp
    if what == "hp":
        i = rng.randrange(len(sp["hps"]))
        d = sp["hps"][i]
        r = vary_hp(rng, d, ["sigma", "alpha", "beta", "def", "weights", "mu", "log"] if d["name"] in used else None)
        if r is None or d["name"] in used and r[0] not in ("sigma", "alpha", "beta", "def", "weights", "mu"):
            return None
        sp["hps"][i] = r[1]
    elif what == "extra-hp":
        sp["hps"].append(gen_hp(rng, fresh(list(defs), rng)))
    elif what == "no-cond" and sp["conds"]:
        sp["conds"].pop(rng.randrange(len(sp["conds"])))
    elif what == "no-forb" and sp["forbs"]:
        sp["forbs"].pop(rng.randrange(len(sp["forbs"])))
    elif what == "extra-cond":
        free = [n for n in model.order if n not in model.cond]
        from rv.checks.p16 import descendants

        if len(free) < 2:
            return None
        ch = rng.choice(free)
        cands = [d for d in spec["hps"] if d["name"] != ch and d["name"] not in descendants(model, ch)]
        if not cands:
            return None
        sp["conds"].append(gen_full_cond(rng, ch, cands))
    elif what == "extra-forb":
        f = gen_forb(rng, spec["hps"])
        if any(as_set(f) == as_set(g) for g in spec["forbs"]):
            return None
        sp["forbs"].append(f)
    elif what == "forb" and sp["forbs"]:
        i = rng.randrange(len(sp["forbs"]))
        r = vary_forb(rng, sp["forbs"][i], defs)
        if r is None or r[0] in ("op", "sides", "name", "part") or any(as_set(r[1]) == as_set(g) for g in sp["forbs"]):
            return None
        sp["forbs"][i] = r[1]
    elif what == "cond" and sp["conds"]:
        i = rng.randrange(len(sp["conds"]))
        r = vary_cond(rng, sp["conds"][i], defs, "c2")
        if r is None or r[0] in ("child", "parent", "part") or as_set(r[1]) == as_set(sp["conds"][i]):
            return None
        sp["conds"][i] = r[1]
    else:
        return None
    try:
        if trial_default(sp):
            return None
    except Undecided:
        return None
    return what, sp


def reorder(rng, x):
    """A condition or clause with its parts and values in another order."""
    if x[0] in ("AND", "OR"):
        return (x[0], rng.sample([reorder(rng, y) for y in x[1]], len(x[1])))
    if x[0] == "IN":
        return (*x[:-1], rng.sample(x[-1], len(x[-1])))
    return x


def case_space(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([2, 3, 5, 7])} | kw))
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    a, b = build(spec, seed=1, rng=rng), build(copy.deepcopy(spec), seed=2, rng=rng)
    equal(ctx, a, a, "reflexive", "itself")
    equal(ctx, a, b, "same-equal", f"{spec}")
    other = {**spec, "conds": [reorder(rng, c) for c in spec["conds"]], "forbs": [reorder(rng, f) for f in spec["forbs"]]}
    if other != spec:
        ctx.event("space:reordered")
        equal(ctx, a, build(other, seed=2, rng=rng), "reordered-equal", f"{spec} {other}")
    for x in (3, None, "c", dict(a)):
        ctx.check(not (a == x) and a != x, "foreign", lambda: f"space == {x!r}")
    # spaces that are equal accept the same configurations
    for c in a.sample_configuration(5):
        try:
            e = Configuration(b, values=dict(c))
        except ValueError as err:
            ctx.check(False, "equal-accepts", lambda: f"{dict(c)}: {err!r}")
            continue
        ctx.check(dict(e) == dict(c), "equal-accepts")
        g = Configuration(b, vector=c.get_array())
        ctx.check(dict(g) == dict(c), "equal-accepts", lambda: f"{dict(g)} {dict(c)}")
    a.seed(7)
    b.seed(7)
    x, y = a.sample_configuration(6), b.sample_configuration(6)
    ctx.check([dict(u) for u in x] == [dict(u) for u in y], "equal-samples", lambda: f"{x} {y}")
    equal(ctx, a, b, "same-equal", "after use")
    before, state = snapshot(a), a.random.get_state()[1].tobytes()
    for how in ("deepcopy", "pickle"):
        u = COPIES[how](a)
        equal(ctx, a, u, "copy-equal", how)
        ctx.check(snapshot(u) == before, "copy-same", lambda: f"{how}: {snapshot(u)}")
        p, q = u.sample_configuration(4), COPIES[how](a).sample_configuration(4)
        ctx.check([dict(z) for z in p] == [dict(z) for z in q], "copy-same", lambda: f"{how}: {p} {q}")
        u.add(make_hp({"k": "cat", "name": "new one", "choices": ["u", "v"]}))
        n = rng.choice(list(defs))
        if not model.cond.get(n):
            u.add(C.EqualsCondition(u[n], u["new one"], "u"))
        ctx.check(snapshot(a) == before and a.random.get_state()[1].tobytes() == state, "copy-independent", lambda: f"{how}: {before}\n{snapshot(a)}")
        differ(ctx, a, u, f"{how} with another hyperparameter")
    for _ in range(5):
        r = vary_space(rng, spec, model, defs)
        if r is None:
            continue
        what, sp = r
        v = build(sp, seed=1, name="named" if what == "name" else None, rng=rng)
        ctx.event("space:" + what)
        differ(ctx, a, v, f"{what}: {spec} / {sp}")
        ctx.state("space", what, repr(describe(spec)), repr(describe(sp)))


CASES = [
    ("hp", case_hp, 150, 4000),
    ("cond", case_cond, 120, 4000),
    ("forb", case_forb, 120, 4000),
    ("space", case_space, 40, 1500),
    ("space-forb", lambda ctx, rng: case_space(ctx, rng, n_forb=4, small=True), 20, 500),
    ("large", lambda ctx, rng: case_space(ctx, rng, **large(rng)), 3, 100),
    ("hard", lambda ctx, rng: case_space(ctx, rng, **hard(rng)), 8, 250),
]
