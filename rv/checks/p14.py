"""P14: a configuration is a consistent mapping with value equality."""
from __future__ import annotations

import copy
import math
import pickle

import numpy as np
from ConfigSpace import Configuration
from ConfigSpace.util import get_one_exchange_neighbourhood, get_random_neighbor

from rv.build import build
from rv.model import Model, same
from rv.mon import cfg_state, check_vector, fingerprint, plain, values_equal
from rv.spec import describe, gen_spec, hard, large, legal_value, random_values

RULE = (
    "a state is a distinct (way of creating, space, active set and discrete values) of a configuration whose mapping "
    "views were compared, or a distinct ordered pair of configurations whose equality and hash were compared"
)
NEEDS = [
    "made:values", "made:vector", "made:sample", "made:default", "made:neighbor", "made:assigned", "pair:equal", "pair:different", "verdict:equality-imputed",
    "verdict:rebuild-values", "verdict:rebuild-vector", "made:int-vector", "verdict:equality-other-space",
]
SENT = object()


def views(ctx, rng, model, cs, cfg, how):
    """All views of one configuration agree."""
    arr = cfg.get_array()
    act = [n for n in cs.keys() if not math.isnan(float(arr[cs.index_of[n]]))]
    ctx.event("made:" + how)

    def look(what):
        if what == "iter":
            ctx.check(list(cfg) == act, "iteration", lambda: f"{list(cfg)} instead of {act}")
        elif what == "len":
            ctx.check(len(cfg) == len(act), "length", lambda: f"{len(cfg)} instead of {len(act)}")
        elif what == "keys":
            ctx.check(list(cfg.keys()) == act, "keys", lambda: f"{list(cfg.keys())} instead of {act}")
        elif what == "items":
            it = list(cfg.items())
            ctx.check([k for k, _ in it] == act, "items", lambda: f"{it}")
            ctx.check(all(same(v, cfg[k]) for k, v in it), "items", lambda: f"{it}")
            ctx.check(len(list(cfg.values())) == len(act), "items")
        elif what == "dict":
            d = dict(cfg)
            ctx.check(list(d) == act, "dict", lambda: f"{list(d)} instead of {act}")
        elif what == "contains":
            for n in model.hps:
                ctx.check((n in cfg) == (n in act), "contains", lambda: f"{n} in {cfg}")
            for n in ("nope", *([] if "" in model.hps else [""]), 3, None, ("a",)):
                ctx.check(n not in cfg, "contains", lambda: f"{n!r}")
        elif what == "get":
            for n in model.hps:
                v = cfg.get(n, SENT)
                ctx.check((v is not SENT) == (n in act), "get", lambda: f"{n}: {v!r}")
                if n in act:
                    ctx.check(same(v, cfg[n]), "get", lambda: f"{n}: {v!r} and {cfg[n]!r}")
            ctx.check(cfg.get("nope") is None, "get")
        elif what == "item":
            for n in model.hps:
                try:
                    v = cfg[n]
                    ok = n in act and model.hps[n].legal(v)
                except KeyError:
                    v, ok = "KeyError", n not in act
                ctx.check(ok, "item", lambda: f"{n} -> {v!r}")
            try:
                cfg["nope"]
                ctx.check(False, "item-unknown")
            except KeyError:
                ctx.check(True, "item-unknown")
        elif what == "str":
            s = str(cfg)
            ctx.check(all(n in s for n in act), "str", lambda: s)

    order = ["iter", "len", "keys", "items", "dict", "contains", "get", "item", "str"]
    rng.shuffle(order)
    for w in order:
        look(w)
    d = dict(cfg)
    check_vector(ctx, model, cs, cfg, d, "mapping")
    ctx.state(how, repr(describe(model.spec)), fingerprint(model, d))


def rebuild(ctx, model, cs, cfg):
    d = dict(cfg)
    a = Configuration(cs, values=d)
    ctx.check(a == cfg and cfg == a and not (a != cfg), "rebuild-values", lambda: f"{d} and {dict(a)}")
    ctx.check(hash(a) == hash(cfg), "rebuild-values-hash", lambda: f"{d}")
    b = Configuration(cs, vector=np.array(cfg.get_array()))
    ctx.check(values_equal(dict(b), d), "rebuild-vector", lambda: f"{d} and {dict(b)}")
    if dict(b) == d:
        ctx.check(b == cfg and hash(b) == hash(cfg), "rebuild-vector-equal", lambda: f"{d}")
    # the same values in another order and with equal values of another type
    items = list(d.items())[::-1]
    c = Configuration(cs, values=dict(items))
    ctx.check(c == cfg and hash(c) == hash(cfg), "rebuild-order", lambda: f"{d}")
    alt = {}
    for k, v in d.items():
        hp = model.hps[k]
        v = plain(v)
        if hp.is_int or hp.is_float:
            v = float(v) if hp.is_int else (int(v) if v == int(v) else np.float64(v))
        elif isinstance(v, str):
            v = np.str_(v)
        alt[k] = v
    e = Configuration(cs, values=alt)
    ctx.check(e == cfg and hash(e) == hash(cfg), "rebuild-types", lambda: f"{d} and {alt}")


def pairs(ctx, rng, configs):
    for _ in range(20):
        a, b = rng.choice(configs), rng.choice(configs)
        da, db = dict(a), dict(b)
        want = da.keys() == db.keys() and all(same(da[k], db[k]) for k in da)
        got = a == b
        ctx.check(bool(got) == want, "equality", lambda: f"{got} for {da} and {db}")
        ctx.check(bool(a != b) == (not want), "inequality", lambda: f"{da} and {db}")
        ctx.check(bool(b == a) == want, "equality-symmetric", lambda: f"{da} and {db}")
        if want:
            ctx.event("pair:equal")
            ctx.check(hash(a) == hash(b), "hash", lambda: f"{da} and {db}")
            ctx.check(len({a, b}) == 1, "hash-set", lambda: f"{da} and {db}")
        else:
            ctx.event("pair:different")
    c = configs[0]
    ctx.check(c == c and not (c == dict(c)) and not (c == 1) and not (c == None), "equality-other-type")  # noqa: E711


def other_values(ctx, rng, model, cs, cfg, defs):
    """Change exactly one value: not equal any more."""
    d = dict(cfg)
    for n in list(d):
        hp = model.hps[n]
        v = legal_value(rng, defs[n])
        if same(v, d[n]) or (hp.is_float and abs(v - d[n]) < 1e-9):
            continue
        e = {**d, n: v}
        if model.defects(e):
            continue
        o = Configuration(cs, values=e)
        ctx.check(not (o == cfg) and o != cfg, "equality-one-value", lambda: f"{d} and {e}")
        return o
    return None


def case_random(ctx, rng, **kw):
    spec = gen_spec(rng, **({"n": rng.choice([1, 3, 5, 8]), "p_cond": rng.choice([0.3, 0.8])} | kw))
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec, seed=rng.randrange(2**31), rng=rng)
    cs2 = build(spec, seed=3)
    made = [("default", cs.get_default_configuration())]
    made += [("sample", c) for c in cs.sample_configuration(3)]
    for _ in range(3):
        v = random_values(rng, model, defs)
        if not model.forbidden(v):
            items = list(v.items())
            rng.shuffle(items)
            made.append(("values", Configuration(cs, values=dict(items))))
            made.append(("values", Configuration(cs2, values=dict(items))))
    base = made[-1][1]
    made.append(("vector", Configuration(cs, vector=np.array(base.get_array()))))
    made.append(("vector", Configuration(cs, vector=np.array(base.get_array()).reshape(-1, 1))))
    made.append(("copy", copy.copy(base)))
    made.append(("copy", copy.deepcopy(base)))
    made.append(("copy", pickle.loads(pickle.dumps(base))))
    for i, c in enumerate(get_one_exchange_neighbourhood(made[0][1], seed=rng.randrange(10**6))):
        made.append(("neighbor", c))
        if i > 3:
            break
    try:
        made.append(("neighbor", get_random_neighbor(made[0][1], seed=rng.randrange(10**6))))
    except ValueError:
        pass
    for how, c in made:
        views(ctx, rng, model, cs, c, how)
        rebuild(ctx, model, cs, c)
        o = other_values(ctx, rng, model, cs, c, defs)
    if o is not None:
        made.append(("values", o))
    # configurations which hold values of inactive hyperparameters
    for _, c in made[:4]:
        full = dict(c)
        for n in defs:
            if n not in full:
                full[n] = legal_value(rng, defs[n])
        if len(full) > len(c) and not model.forbidden(full):
            made.append(("imputed", Configuration(cs, values=full, allow_inactive_with_values=True)))
            e = made[-1][1]
            ctx.check(not (c == e) and not (e == c), "equality-imputed", lambda: f"{dict(c)} and {full}")
    # the same values in a space which is not equal
    other = copy.deepcopy(spec)
    names = sorted(defs)
    d = [x for x in other["hps"] if x["name"] == rng.choice(names)]
    if d and d[0]["k"] in ("cat", "uint", "ufloat", "ord"):
        d = d[0]
        if d["k"] == "cat":
            d["choices"] = [*d["choices"], "one more choice"]
            if "weights" in d:
                d["weights"] = [*d["weights"], 0.5]
        elif d["k"] == "ord":
            d["seq"] = [*d["seq"], "one more value"]
        else:
            d["hi"] = d["hi"] + 1
        d["def"] = cs[d["name"]].default_value
        try:
            cs3 = build(other, seed=3)
        except ValueError:
            cs3 = None
        for _, c in made[:6] if cs3 is not None else []:
            try:
                e = Configuration(cs3, values=dict(c))
            except ValueError:
                continue
            ctx.check(not (c == e) and not (e == c) and c != e, "equality-other-space", lambda: f"{dict(c)} of {spec} and {other}")
    # a history of reads and assignments
    how, c = rng.choice([m for m in made if m[0] != "imputed"])
    keep = copy.copy(c)
    keep_state = cfg_state(keep)
    h0 = hash(c)
    for _ in range(6):
        n = rng.choice(list(defs))
        try:
            c[n] = legal_value(rng, defs[n])
        except ValueError:
            pass
        views(ctx, rng, model, cs, c, "assigned")
        rebuild(ctx, model, cs, c)
        if dict(c) == dict(keep):
            ctx.check(hash(c) == h0, "hash-after-assignment")
    ctx.check(cfg_state(keep) == keep_state, "copy-independent")
    pairs(ctx, rng, [c for _, c in made] + [c, keep])
    ctx.sample(describe(spec))


def case_int_vector(ctx, rng):
    """Vectors of whole numbers."""
    spec = gen_spec(rng, n=rng.choice([1, 2, 4]), p_cond=0, n_forb=0, kinds=["cat", "ord", "ufloat", "uint", "const"])
    ctx.note(spec=spec)
    model = Model(spec)
    defs = {d["name"]: d for d in spec["hps"]}
    cs = build(spec)
    vec = np.zeros(len(defs), dtype=int)
    for n, hp in model.hps.items():
        vec[cs.index_of[n]] = 1 if hp.k == "const" else rng.choice([0, 0, 1]) if hp.choices is None or len(hp.choices) > 1 else 0
    for v in (vec, list(map(int, vec)), vec.astype(np.float32)):
        c = Configuration(cs, vector=np.asarray(v))
        c.check_valid_configuration()
        views(ctx, rng, model, cs, c, "int-vector")
        for _ in range(4):
            n = rng.choice(list(defs))
            x = legal_value(rng, defs[n])
            c[n] = x
            ctx.check(values_equal({n: c[n]}, {n: x}), "assign-int-vector", lambda: f"{n}={x}: {c[n]}")
            views(ctx, rng, model, cs, c, "int-vector")
            rebuild(ctx, model, cs, c)


def case_nested(ctx, rng):
    case_random(ctx, rng, n=rng.choice([5, 7]), p_cond=0.95, small=True, kinds=["cat", "cat", "ord", "uint", "ufloat", "const"])


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [
    ("random", case_random, 12, 500),
    ("nested", case_nested, 10, 400),
    ("int-vector", case_int_vector, 15, 200),
    ("large", lambda ctx, rng: case_random(ctx, rng, **large(rng)), 1, 25),
    ("hard", lambda ctx, rng: case_random(ctx, rng, **hard(rng)), 2, 60),
]
