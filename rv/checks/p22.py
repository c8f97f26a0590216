"""P22: equal seeds give equal results."""
from __future__ import annotations

import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from ConfigSpace.util import get_one_exchange_neighbourhood, get_random_neighbor

from rv.build import build, make_hp
from rv.hpgen import wide_hp
from rv.model import HP
from rv.mon import cfg_state
from rv.spec import gen_spec, legal_value

RULE = "a state is a distinct (space, call sequence) whose results were compared between two spaces, or a batch compared between processes"
NEEDS = [
    "verdict:same-sequence", "verdict:reseeded", "verdict:global-state", "verdict:neighbors", "verdict:random-neighbor", "verdict:hp-sample", "verdict:hp-neighbors", "verdict:hp-neighbors-most",
    "verdict:other-process", "verdict:seeds-differ", "verdict:independent-of-others", "op:sample", "op:sample-many", "op:default", "op:validate", "op:change",
]
ASSUMPTIONS = ["spaces are equal in all their parts including the order of choices"]


def global_state():
    return (random.getstate(), [x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state()])


def op_seq(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(["sample", "sample", "sample-many", "default", "validate", "change", "rvs"])
        out.append((op, rng.choice([1, 2, 3, 7, 20])))
    return out


def run(cs, ops, ctx=None, between=None):
    """Results of a sequence of calls, as exact states."""
    out, last = [], None
    for op, k in ops:
        if ctx is not None:
            ctx.event("op:" + op)
        if between is not None:
            between()
        if op == "sample":
            last = cs.sample_configuration()
            out.append(cfg_state(last))
        elif op == "sample-many":
            cfgs = cs.sample_configuration(k)
            cfgs = cfgs if isinstance(cfgs, list) else [cfgs]
            out += [cfg_state(c) for c in cfgs]
            last = cfgs[-1]
        elif op == "default":
            last = cs.get_default_configuration()
            out.append(cfg_state(last))
        elif op == "validate" and last is not None:
            last.check_valid_configuration()
        elif op == "change" and last is not None:
            try:
                name = sorted(last)[0]
                last[name] = cs[name].default_value
            except ValueError:
                pass
            out.append(cfg_state(last))
        elif op == "rvs" and last is not None:
            try:
                out.append([cfg_state(c) for _, c in zip(range(k), get_one_exchange_neighbourhood(last, seed=k))])
            except ValueError as e:
                out.append(type(e).__name__)
    return out


def case_sequence(ctx, rng):
    spec = gen_spec(rng, small=rng.random() < 0.5)
    ops = op_seq(rng, rng.choice([3, 6, 10]))
    seed = rng.choice([0, 1, 42, 2**31 - 1, rng.randrange(10**6)])
    ctx.note(spec=spec, ops=ops, seed=seed)
    a, b = build(spec, seed=seed, rng=rng), build(spec, seed=seed, rng=rng)
    g0 = global_state()
    ra = run(a, ops, ctx)
    ctx.check(global_state() == g0, "global-state")
    other = build(gen_spec(rng, n=3, small=True), seed=rng.randrange(99))

    def noise():
        random.random()
        np.random.rand()
        other.sample_configuration(2)
        other.seed(5)
        a.sample_configuration(1)

    rb = run(b, ops, None, noise)
    ctx.check(rb == ra, "same-sequence", lambda: f"{[i for i, (x, y) in enumerate(zip(ra, rb)) if x != y][:3]} of {ops}")
    ctx.check(rb == ra, "independent-of-others")
    random.seed(rng.random())
    np.random.seed(rng.randrange(2**31))
    a.seed(seed)
    ctx.check(run(a, ops) == ra, "reseeded", lambda: f"{ops}")
    fresh = build(spec, seed=seed)
    ctx.check(run(fresh, ops) == ra, "same-sequence", "fresh space")
    # seeded in another way
    late = build(spec)
    late.seed(seed)
    ctx.check(run(late, ops) == ra, "reseeded", "a space without a seed that is seeded later")
    ctx.state(repr(spec), repr(ops), seed)
    ctx.sample({"hyperparameters": len(spec["hps"]), "ops": ops, "results": len(ra)})


def case_neighbors(ctx, rng):
    spec = gen_spec(rng, n=rng.choice([1, 2, 4, 6]), small=True)
    if all(HP(d).size == 1 for d in spec["hps"]):
        ctx.skip("no-neighbors")
        return
    ctx.note(spec=spec)
    a, b = build(spec, seed=1), build(spec, seed=2)
    ca = a.sample_configuration()
    from ConfigSpace import Configuration

    cb = Configuration(b, vector=ca.get_array().copy())
    seed = rng.choice([0, 1, 99])
    g0 = global_state()
    kw = rng.choice([{}, {"num_neighbors": 2}, {"stdev": 0.5}])
    na = [cfg_state(c) for c in get_one_exchange_neighbourhood(ca, seed=seed, **kw)]
    ctx.check(global_state() == g0, "global-state", "neighbourhood")
    b.sample_configuration(3)
    np.random.rand(3)
    nb = [cfg_state(c) for c in get_one_exchange_neighbourhood(cb, seed=seed, **kw)]
    ctx.check(na == nb, "neighbors", lambda: f"{kw} {len(na)} {len(nb)}")
    inter = get_one_exchange_neighbourhood(ca, seed=seed, **kw)
    got = []
    for c in inter:
        got.append(cfg_state(c))
        np.random.rand()
        b.sample_configuration()
        if len(got) < 5:
            list(zip(range(2), get_one_exchange_neighbourhood(ca, seed=7)))
    ctx.check(got == na, "neighbors", "interleaved with other use")

    def one(c):
        try:
            return cfg_state(get_random_neighbor(c, seed))
        except ValueError as e:
            return type(e).__name__

    g0 = global_state()
    x = one(ca)
    ctx.check(global_state() == g0, "global-state", "random neighbor")
    ctx.check(one(cb) == x, "random-neighbor", lambda: f"{x}")
    ctx.state(repr(spec), "nb")


def case_hp(ctx, rng):
    d = wide_hp(rng)
    ctx.note(hp=d)
    a, b = make_hp(d), make_hp(d)
    s, n = rng.randrange(1000), rng.choice([1, 2, 10, 100])
    R = np.random.RandomState
    g0 = global_state()
    ra, rb = R(s), R(s)
    b.sample_value(5, seed=R(3))
    x = [repr(a.sample_value(seed=ra)), np.asarray(a.sample_vector(n, seed=ra)).tobytes(), [repr(v) for v in a.sample_value(n, seed=ra)]]
    np_noise = R(1).rand()
    y = [repr(b.sample_value(seed=rb)), np.asarray(b.sample_vector(n, seed=rb)).tobytes(), [repr(v) for v in b.sample_value(n, seed=rb)]]
    ctx.check(x == y and ra.rand() == rb.rand(), "hp-sample", lambda: f"{d}: {x} {y} {np_noise}")
    if HP(d).size > 1:
        v = legal_value(rng, d)
        vec = float(np.asarray(a.to_vector(v)))
        try:
            na = np.asarray(a.neighbors_vectorized(vec, 4, seed=R(s))).tobytes()
            nb = np.asarray(b.neighbors_vectorized(vec, 4, seed=R(s))).tobytes()
            ctx.check(na == nb, "hp-neighbors", lambda: f"{d} {v}")
            # nearly all of them, from a very narrow neighborhood
            if HP(d).k in ("uint", "nint", "bint", "ord", "cat") and 3 < HP(d).size < 400:
                n = rng.choice([HP(d).size - 2, HP(d).size // 2, HP(d).size - 3])
                na, nb = (np.asarray(h.neighbors_vectorized(vec, n, std=0.01, seed=R(s))).tobytes() for h in (a, b))
                ctx.check(na == nb, "hp-neighbors-most", lambda: f"{d} {v} {n}")
        except ValueError:
            ctx.skip("too-many-neighbors")
    ctx.check(global_state() == g0, "global-state", "hyperparameter")
    ctx.state("hp", repr(d))


def case_differ(ctx, rng):
    """Different seeds and later samples are different ones."""
    cs = [build({"hps": [{"k": "ufloat", "name": f"x{i}", "lo": 0.0, "hi": 1.0} for i in range(3)], "conds": [], "forbs": []}, seed=s) for s in (1, 2)]
    x = [dict(c.sample_configuration()) for c in cs]
    y = dict(cs[0].sample_configuration())
    ctx.check(x[0] != x[1] and x[0] != y, "seeds-differ")
    free = [build({"hps": [{"k": "ufloat", "name": "x", "lo": 0.0, "hi": 1.0}], "conds": [], "forbs": []}) for _ in (1, 2)]
    ctx.check(dict(free[0].sample_configuration()) != dict(free[1].sample_configuration()), "seeds-differ", "unseeded spaces")


def digest(batch: str) -> str:
    """Results for a batch of spaces, used in this and in other processes."""
    rng = random.Random(batch)
    h = hashlib.sha256()
    for _ in range(12):
        spec = gen_spec(rng, small=rng.random() < 0.5)
        ops = op_seq(rng, 6)
        cs = build(spec, seed=rng.randrange(100))
        h.update(repr(run(cs, ops)).encode())
        h.update(repr([list(cs), [sorted(x.name for x in cs.children_of[n]) for n in cs]]).encode())
        h.update(json.dumps(cs.to_serialized_dict(), default=str).encode())
    return h.hexdigest()


def case_process(ctx, rng):
    batch = f"{rng.random()}"
    ctx.note(batch=batch)
    mine = digest(batch)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for hs in ("0", str(rng.randrange(1, 4000))):
        env = {**os.environ, "PYTHONHASHSEED": hs, "PYTHONPATH": root, "PYTHONDONTWRITEBYTECODE": "1"}
        code = f"import warnings; warnings.simplefilter('ignore'); import numpy, random; numpy.random.seed({int(hs) % 97}); from rv.checks.p22 import digest; print(digest({batch!r}))"
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=300)
        got = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr[-2000:]
        ctx.check(got == mine, "other-process", lambda: f"hash seed {hs}: {got} instead of {mine}")
    ctx.state("batch", batch)


def case_rvs(ctx, rng):
    """Drawing values of one hyperparameter with any kind of seed."""
    d = wide_hp(rng)
    ctx.note(hp=d)
    hp = make_hp(d)
    seed = rng.choice([0, 0, 1, 2**31 - 1, 2**32 - 1, rng.randrange(2**31)])
    n = rng.choice([None, 1, 5, 40])
    ways = {
        "int": lambda: seed,
        "state": lambda: np.random.RandomState(seed),
        "generator": lambda: np.random.default_rng(seed),
    }
    outs = {}
    for w, mk in ways.items():
        before = global_state()
        a, b = hp.rvs(n, random_state=mk()), hp.rvs(n, random_state=mk())
        ctx.check(repr(a) == repr(b), "rvs-repeat", lambda: f"{d} with {w} of {seed}: {a!r} and {b!r}")
        ctx.check(global_state() == before, "rvs-global", lambda: f"{d} with {w} of {seed}")
        outs[w] = a
    ctx.check(repr(outs["int"]) == repr(outs["state"]), "rvs-seed", lambda: f"{d}: {outs['int']!r} with the seed {seed}, {outs['state']!r} with a state of it")
    # a state or generator in use goes on
    if HP(d).is_float:
        for w in ("state", "generator"):
            s = ways[w]()
            a, b = hp.rvs(30, random_state=s), hp.rvs(30, random_state=s)
            ctx.check(len(set(a)) < 5 or repr(a) != repr(b), "rvs-goes-on", lambda: f"{d}: twice {a!r}")
            ctx.event("rvs:" + w)
    ctx.state("rvs", repr(d), seed, n)


QUICK_TIMES = 2  # the quick tier runs the first numbers below this many times over
CASES = [("sequence", case_sequence, 25, 800), ("neighbors", case_neighbors, 20, 500), ("hp", case_hp, 60, 1500), ("rvs", case_rvs, 40, 800), ("differ", case_differ, 2, 20), ("process", case_process, 1, 12)]
