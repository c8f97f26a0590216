"""P36: a failure in code of the user leaves everything as it was."""
from __future__ import annotations

import copy
import io
import os
import random
import shutil
import tempfile

import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace, EqualsCondition, ForbiddenAndConjunction, ForbiddenEqualsClause, InCondition
from ConfigSpace.exceptions import ForbiddenValueError
from ConfigSpace.util import (
    check_configuration,
    deactivate_inactive_hyperparameters,
    get_one_exchange_neighbourhood,
    get_random_neighbor,
    impute_inactive_values,
)

from rv import custom
from rv.build import build, make_hp
from rv.checks.p35 import full_state
from rv.model import HP, Model
from rv.mon import cfg_state, snapshot
from rv.spec import describe, gen_spec, legal_value

RULE = "a state is a distinct (space, operation, kind of failing call, number of the failing call, kind of error) after which the space, its parts and all configurations were compared with those of an untouched twin"
NEEDS = [
    "verdict:error-reaches-caller", "verdict:space-as-before", "verdict:configurations-as-before", "verdict:works-again", "verdict:file-as-before",
    "op:sample", "op:default", "op:neighbors", "op:random-neighbor", "op:from-values", "op:from-vector", "op:read", "op:assign", "op:impute", "op:deactivate", "op:hyperparameter", "op:add", "op:add-generated",
    "op:compose", "op:composed-into", "op:serialize", "op:to-path", "op:write", "op:deserialize", "op:read-file", "op:compare", "op:copies",
    "fails:transformer", "fails:distribution", "fails:neighborhood", "fails:encoder", "fails:decoder", "fails:file", "fails:iterator", "fails:equality",
    "error:Boom", "error:Interrupt", "error:Refusal",
]
ASSUMPTIONS = [
    "the position of the random generator after a failed draw is not claimed; draws are compared after seeding again",
    "errors derived from ValueError are only raised where the library does not use such errors itself to find another candidate or report",
]


class Boom(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class Refusal(RuntimeError):
    pass


class Fault:
    """Counts the calls of the user's code and lets one of them fail."""

    count, at, error, last, log, watch = 0, None, None, None, None, False

    @classmethod
    def hit(cls, role):
        if not cls.watch:
            return
        cls.count += 1
        if cls.log is not None:
            cls.log.append(role)
        if cls.at == cls.count:
            cls.at = None
            cls.last = cls.error("call of the user's code")
            raise cls.last


class Proxy:
    """A component of a user, whose calls are counted."""

    def __init__(self, role, x):
        self.role, self.x = role, x

    def __getattr__(self, n):
        if n in ("x", "role") or n.startswith("__"):
            raise AttributeError(n)
        v = getattr(self.x, n)
        if not callable(v):
            return v

        def call(*a, **k):
            Fault.hit(self.role)
            return v(*a, **k)

        return call

    def __call__(self, *a, **k):
        Fault.hit(self.role)
        return self.x(*a, **k)

    def __eq__(self, o):
        Fault.hit("equality")
        return type(o) is Proxy and self.x == o.x

    __hash__ = None


def wrap(role, x):
    if x is None:
        Fault.hit(role)
        return None
    return Proxy(role, x)


class File(io.StringIO):
    def write(self, s):
        Fault.hit("file")
        return super().write(s)

    def read(self, *a):
        Fault.hit("file")
        return super().read(*a)


class World:
    """All objects of one side; built twice in the same way."""

    def __init__(self, spec, sub, seed, scratch):
        rng = random.Random(seed)
        self.spec, self.defs = spec, {d["name"]: d for d in spec["hps"]}
        self.cs = build(spec, seed=seed)
        self.other, self.sub = build(spec, seed=seed), build(sub, seed=seed)
        self.cfgs = [Configuration(self.cs, vector=c.get_array().copy()) for c in self.cs.sample_configuration(3)]
        self.cfgs += [self.cs.get_default_configuration()]
        # parts to be added
        new = custom.own_variant(rng, {"k": rng.choice(["uint", "ufloat", "cat"]), "name": "~new", "lo": 1, "hi": 6, "choices": ["p", "q", "r"]})
        child = {"k": "cat", "name": "~child", "choices": ["s", "t"]}
        self.new = [make_hp(new), make_hp(child)]
        vals = [legal_value(rng, new) for _ in range(4)]
        self.parts = [*self.new]
        self.parts.append(EqualsCondition(self.new[1], self.new[0], vals[0]) if rng.random() < 0.5 else InCondition(self.new[1], self.new[0], vals[:2]))
        if rng.random() < 0.7 and vals[2] != self.new[0].default_value:
            f = ForbiddenEqualsClause(self.new[0], vals[2])
            self.parts.append(f if rng.random() < 0.5 else ForbiddenAndConjunction(f, ForbiddenEqualsClause(self.new[1], "t")))
        self.path = os.path.join(scratch, f"space{id(self)}.json")
        with open(self.path, "w") as f:
            f.write("precious")
        b = io.StringIO()
        self.cs.to_json(b, encoders=custom.ENCODERS)
        self.text = b.getvalue()

    def state(self):
        return [snapshot(self.cs), snapshot(self.sub), snapshot(self.other), str(self.cs), [repr(p) if hasattr(p, "name") else str(p) for p in self.parts]]

    def held(self):
        return [full_state(c) for c in self.cfgs]


def drawn(c):
    return [cfg_state(x) for x in (c if isinstance(c, list) else [c])]


def done():
    """The operation is over, what follows only looks at the result."""
    Fault.watch = False


def do(w, op, r):
    Fault.watch = True
    try:
        return act(w, op, r)
    finally:
        Fault.watch = False


def act(w, op, r):
    """One operation; everything it depends on comes from `r`."""
    cs = w.cs
    c = r.choice(w.cfgs)
    s = r.randrange(10**6)
    if op == "sample":
        cs.seed(s)
        return drawn(cs.sample_configuration(r.choice([1, 2, 7])))
    if op == "default":
        return cfg_state(cs.get_default_configuration())
    if op == "neighbors":
        return [cfg_state(o) for _, o in zip(range(8), get_one_exchange_neighbourhood(c, seed=s, num_neighbors=r.choice([1, 4])))]
    if op == "random-neighbor":
        try:
            return cfg_state(get_random_neighbor(c, seed=s))
        except ValueError:
            return "none"
    if op == "from-values":
        return full_state(Configuration(cs, values=dict(c)))
    if op == "from-vector":
        o = Configuration(cs, vector=c.get_array().copy())
        check_configuration(cs, o.get_array(), allow_inactive_with_values=False)
        o.check_valid_configuration()
        return full_state(o)
    if op == "read":
        how = r.choice(["dict", "hash", "str", "items", "eq", "get"])
        if how == "dict":
            return repr(dict(c))
        if how == "hash":
            return hash(c)
        if how == "str":
            return str(c)
        if how == "items":
            return repr([list(c.items()), list(c.values()), list(c), len(c)])
        if how == "eq":
            return [c == o for o in w.cfgs]
        return repr([c.get(n, "nothing") for n in w.defs])
    if op == "assign":
        n = r.choice(sorted(w.defs))
        v = legal_value(r, w.defs[n])
        try:
            c[n] = v
        except ValueError as e:
            return type(e).__name__
        done()
        return w.held()
    if op == "impute":
        try:
            return repr(sorted(dict(impute_inactive_values(c)).items()))
        except ForbiddenValueError:
            return "forbidden"
    if op == "deactivate":
        v = dict(c)
        for n in w.defs:
            if n not in v and r.random() < 0.5:
                v[n] = legal_value(r, w.defs[n])
        try:
            return full_state(deactivate_inactive_hyperparameters(v, cs))
        except ValueError:
            return "forbidden"
    if op == "hyperparameter":
        n = r.choice(sorted(w.defs))
        hp = cs[n]
        R = np.random.RandomState
        vals = hp.sample_value(4, seed=R(s))
        vecs = hp.to_vector(vals)
        out = [vals, vecs, hp.legal_value(vals), hp.legal_vector(vecs), hp.pdf_values(vals), hp.pdf_vector(vecs), hp.to_value(vecs), hp.get_max_density(), hp.legal_value(vals[0]), hp.to_vector(vals[0])]
        if HP(w.defs[n]).size > 1:
            out += [hp.neighbors_values(vals[0], 2, seed=R(s)), hp.neighbors_vectorized(vecs[0], 1, seed=R(s)), hp.get_num_neighbors(vals[0])]
        return repr(out)
    if op in ("add", "add-generated"):
        parts = list(w.parts)
        r.shuffle(parts)

        def stream():
            for p in parts:
                Fault.hit("iterator")
                yield p

        cs.add(stream()) if op == "add-generated" else cs.add(parts)
        done()
        cs.seed(s)
        return [snapshot(cs), drawn(cs.sample_configuration(2))]
    if op in ("compose", "composed-into"):
        a, b = (cs, w.sub) if op == "compose" else (w.sub, cs)
        kw = {}
        if r.random() < 0.6:
            roots = [n for n in a.unconditional_hyperparameters if a[n].size > 1]
            if roots:
                n = r.choice(sorted(roots))
                kw = {"parent_hyperparameter": {"parent": a[n], "value": a[n].default_value}}
        a.add_configuration_space("more", b, **kw)
        done()
        a.seed(s)
        return [snapshot(a), drawn(a.sample_configuration(2)), snapshot(b)]
    if op == "serialize":
        return repr(cs.to_serialized_dict(encoders=custom.ENCODERS))
    if op == "to-path":
        cs.to_json(w.path, encoders=custom.ENCODERS)
        with open(w.path) as f:
            return f.read()
    if op == "write":
        f = File()
        cs.to_json(f, encoders=custom.ENCODERS)
        return f.getvalue()
    if op == "deserialize":
        o = ConfigurationSpace.from_json(io.StringIO(w.text), decoders=custom.DECODERS)
        o.seed(s)
        return [snapshot(o), drawn(o.sample_configuration(2))]
    if op == "read-file":
        return snapshot(ConfigurationSpace.from_json(File(w.text), decoders=custom.DECODERS))
    if op == "compare":
        return [cs == w.other, w.other == cs, cs == w.sub, [cs[n] == w.other[n] for n in w.defs]]
    if op == "copies":
        o = copy.deepcopy(cs)
        o.seed(s)
        return [snapshot(o), drawn(o.sample_configuration(2)), [full_state(copy.copy(x)) for x in w.cfgs]]
    raise AssertionError(op)


OPS = sorted(x[3:] for x in NEEDS if x.startswith("op:"))


def case_fault(ctx, rng):
    old = custom.WRAP
    custom.WRAP = wrap
    scratch = tempfile.mkdtemp(prefix="rv-p36-")
    Fault.at = Fault.log = None
    try:
        fault(ctx, rng, scratch)
    finally:
        custom.WRAP = old
        Fault.at = Fault.log = None
        shutil.rmtree(scratch)


def fault(ctx, rng, scratch):
    spec = gen_spec(rng, n=rng.choice([1, 2, 3, 5]), own=rng.choice([0.6, 1.0]), small=True, p_cond=rng.choice([0.2, 0.8]), n_forb=rng.choice([0, 1, 2]))
    if all(HP(d).size == 1 for d in spec["hps"]):
        return
    sub = gen_spec(rng, n=rng.choice([1, 2]), own=0.5, small=True, n_forb=rng.choice([0, 1]))
    ctx.note(spec=spec, sub=sub)
    seed = rng.randrange(1000)
    twin, real = World(spec, sub, seed, scratch), World(spec, sub, seed, scratch)
    ops = []
    for _ in range(rng.choice([1, 3, 6])):
        op = rng.choice([o for o in OPS if o not in ops or not o.startswith(("add", "comp"))])
        if op.startswith("add") and any(o.startswith("add") for o in ops) or op.startswith("compose") and any(o.startswith("compose") for o in ops):
            continue
        ops.append(op)
        key = rng.randrange(10**9)
        # what it is like without a failure; read before, which may fill caches of the twin
        state, held = twin.state(), twin.held()
        grows = op in ("add", "add-generated", "compose")
        Fault.count, Fault.log = 0, []
        want = do(twin, op, random.Random(key))
        log, Fault.log = Fault.log, None
        n = len(log)
        if grows:  # configurations made before no longer belong to it
            twin.cfgs = [twin.cs.get_default_configuration()]
        after = [twin.state(), twin.held()]
        if n == 0:
            ctx.skip("no-call-of-the-user")
        ctx.event("op:" + op)
        for k in sorted(rng.sample(range(1, n + 1), min(n, 4))):
            Fault.error = rng.choice([Boom, Boom, Interrupt, Refusal])
            ctx.note(ops=list(ops), call=k, role=log[k - 1], error=Fault.error.__name__)
            Fault.count, Fault.at, Fault.last = 0, k, None
            got = None
            try:
                do(real, op, random.Random(key))
            except (Boom, Interrupt, Refusal) as e:
                got = e
            reached, Fault.at = Fault.at is None, None
            if not reached:
                # caches of the library may save calls after an earlier failure
                ctx.skip("call-not-made")
                if ctx.check(got is None, "error-reaches-caller"):
                    break
            where = f"{op}, call {k} of {n} ({log[k - 1]})"
            ctx.check(got is not None and got is Fault.last, "error-reaches-caller", lambda: f"{where}: {got!r} instead of {Fault.last!r}")
            now = real.state()
            ctx.check(now == state, "space-as-before", lambda: f"{where}: {[(a, b) for a, b in zip(state, now) if a != b]}")
            now = real.held()
            ctx.check(now == held, "configurations-as-before", lambda: f"{where}: {held}\n{now}")
            if op == "to-path" and log[k - 1] == "encoder":
                with open(real.path) as f:
                    ctx.check(f.read() == "precious", "file-as-before", where)
            ctx.event("fails:" + log[k - 1])
            ctx.event("error:" + Fault.error.__name__)
            ctx.state(repr(describe(spec)), op, log[k - 1], k, Fault.error.__name__)
        else:
            got = do(real, op, random.Random(key))
            ctx.check(got == want, "works-again", lambda: f"{op}: {want}\n{got}")
        if grows:
            real.cfgs = [real.cs.get_default_configuration()]
        now = [real.state(), real.held()]
        ctx.check(now == after, "works-again", lambda: f"{op}: {[(a, b) for a, b in zip(after[0], now[0]) if a != b]} {after[1] == now[1]}")
        for w in (twin, real):
            with open(w.path, "w") as f:
                f.write("precious")
    ctx.sample({"space": describe(spec), "operations": ops})


CASES = [("fault", case_fault, 120, 4000)]
