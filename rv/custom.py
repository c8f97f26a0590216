"""Hyperparameter types of a user, composed of the library's components as documented.

Spec data is that of the nearest built-in kind, which gives the domain, plus `own`,
which gives the components.
"""
from __future__ import annotations

from collections.abc import Hashable, Mapping
from dataclasses import dataclass, field
from functools import partial
from typing import Any, ClassVar

import numpy as np
from ConfigSpace.hyperparameters import FloatHyperparameter, Hyperparameter, IntegerHyperparameter
from ConfigSpace.hyperparameters.distributions import (
    DiscretizedContinuousScipyDistribution,
    ScipyContinuousDistribution,
    ScipyDiscreteDistribution,
    UniformIntegerDistribution,
    UniformIntegerNormalizedDistribution,
    UnitUniformContinuousDistribution,
    continuous_neighborhood,
    quantized_neighborhood,
    WeightedIntegerDiscreteDistribution,
)
from ConfigSpace.hyperparameters.hp_components import TransformerSeq, UnitScaler, ordinal_neighborhood
from scipy import stats

i64, f64 = np.int64, np.float64


def WRAP(role, x):  # noqa: N802
    """Replaced where a check watches the calls of a user's components."""
    return x

# continuous distributions on the unit interval with a bounded density
RVS = {
    "uniform": lambda: stats.uniform(0, 1),
    "beta": lambda a, b: stats.beta(a, b),
    "triang": lambda c: stats.triang(c),
    "truncexpon": lambda b: stats.truncexpon(b, scale=1 / b),
    "powerlaw": lambda a: stats.powerlaw(a),
    "beta by name": lambda a, b: stats.beta(a=a, b=b),
    "triang by name": lambda c: stats.triang(c=c),
    "truncnorm": lambda m, s: stats.truncnorm(-m / s, (1 - m) / s, loc=m, scale=s),
}


def gen_rv(rng):
    k = rng.choice(list(RVS))
    args = {
        "uniform": lambda: [],
        "beta": lambda: [rng.choice([1, 1.5, 2, 5]), rng.choice([1, 2, 3.5])],
        "triang": lambda: [rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])],
        "truncexpon": lambda: [rng.choice([0.5, 1.0, 3.0, 8.0])],
        "powerlaw": lambda: [rng.choice([1.0, 1.3, 2.0, 4.0])],
        "beta by name": lambda: [rng.choice([1, 1.5, 2, 5]), rng.choice([1, 2, 3.5])],
        "triang by name": lambda: [rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])],
        "truncnorm": lambda: [rng.choice([0.1, 0.5, 0.8]), rng.choice([0.1, 0.3, 2.0])],
    }[k]()
    return [k, args]


def nearby(rng, rv):
    """Another distribution, of the same family if it has parameters."""
    k, args = rv
    if not args:
        return ["beta", [2.5, 1.5]]
    args = list(args)
    i = rng.randrange(len(args))
    args[i] = args[i] * 0.9 if args[i] > 1 or (args[i] and k != "beta") else args[i] + 0.125
    return [k, args]


def frozen(rv):
    return RVS[rv[0]](*rv[1])


def peak(rv):
    """Largest density, computed on a fine grid including both ends."""
    return float(frozen(rv).pdf(np.linspace(0, 1, 100001)).max())


@dataclass(init=False)
class OwnInteger(IntegerHyperparameter):
    """Integers, spread as a continuous distribution on the unit scale."""

    ORDERABLE: ClassVar[bool] = True
    rv: list
    lower: int
    upper: int
    log: bool
    name: str
    default_value: int
    meta: Mapping[Hashable, Any] | None
    size: int = field(init=False)

    def __init__(self, name, rv, lower, upper, default_value=None, log=False, meta=None):
        self.rv, self.lower, self.upper, self.log = rv, int(lower), int(upper), bool(log)
        scaler = UnitScaler(i64(lower), i64(upper), log=log, dtype=i64)
        if default_value is None:
            default_value = scaler.to_value(np.array([0.5]))[0]
        size = self.upper - self.lower + 1
        if rv is None:
            dist = UniformIntegerNormalizedDistribution(size=size)
        else:
            dist = DiscretizedContinuousScipyDistribution(
                rv=frozen(rv), steps=size, lower_vectorized=f64(0), upper_vectorized=f64(1), transformer=scaler if log else None,
            )
        super().__init__(
            name=name, size=size, default_value=int(default_value), meta=meta, transformer=WRAP("transformer", scaler), vector_dist=WRAP("distribution", dist),
            neighborhood=WRAP("neighborhood", dist.neighborhood), neighborhood_size=self._integer_neighborhood_size, value_cast=int,
        )

    def spec(self):
        return {"k": "uint", "name": self.name, "def": self.default_value, "lo": self.lower, "hi": self.upper, "log": self.log, "own": {"rv": self.rv}}


@dataclass(init=False)
class OwnFloat(FloatHyperparameter):
    """Floats with a continuous distribution on the unit scale."""

    ORDERABLE: ClassVar[bool] = True
    rv: list
    lower: float
    upper: float
    log: bool
    name: str
    default_value: float
    meta: Mapping[Hashable, Any] | None
    size: float = field(init=False)

    def __init__(self, name, rv, lower, upper, default_value=None, log=False, meta=None):
        self.rv, self.lower, self.upper, self.log = rv, float(lower), float(upper), bool(log)
        scaler = UnitScaler(f64(lower), f64(upper), log=log, dtype=f64)
        if default_value is None:
            default_value = scaler.to_value(np.array([0.5]))[0]
        if rv is None:
            dist = UnitUniformContinuousDistribution(pdf_max_density=1.0)
        else:
            dist = ScipyContinuousDistribution(rv=frozen(rv), lower_vectorized=f64(0), upper_vectorized=f64(1), _max_density=peak(rv))
        super().__init__(
            name=name, size=np.inf, default_value=float(default_value), meta=meta, transformer=WRAP("transformer", scaler), vector_dist=WRAP("distribution", dist),
            neighborhood=WRAP("neighborhood", dist.neighborhood), neighborhood_size=np.inf, value_cast=float,
        )

    def to_integer(self):
        raise NotImplementedError

    def spec(self):
        return {"k": "ufloat", "name": self.name, "def": self.default_value, "lo": self.lower, "hi": self.upper, "log": self.log, "own": {"rv": self.rv}}


@dataclass(init=False)
class OwnChoice(Hyperparameter):
    """Choices without an order: drawn evenly or by weights."""

    ORDERABLE: ClassVar[bool] = False
    choices: list
    weights: list | None
    array: bool
    name: str
    default_value: Any
    meta: Mapping[Hashable, Any] | None
    size: int = field(init=False)

    def __init__(self, name, choices, weights=None, array=False, default_value=None, meta=None):
        self.choices, self.weights, self.array = list(choices), weights, array
        n = len(self.choices)
        even = UniformIntegerDistribution(size=n)
        if weights is None:
            dist = even
        else:
            dist = WeightedIntegerDiscreteDistribution(size=n, probabilities=np.array(weights, dtype=f64) / np.sum(weights))
        super().__init__(
            name=name, size=n, default_value=self.choices[0] if default_value is None else default_value, meta=meta,
            transformer=WRAP("transformer", TransformerSeq(seq=np.array(self.choices, dtype=object) if array else self.choices)),
            vector_dist=WRAP("distribution", dist), neighborhood=WRAP("neighborhood", even.neighborhood), neighborhood_size=n - 1, value_cast=None,
        )

    def spec(self):
        return {"k": "cat", "name": self.name, "def": self.default_value, "choices": self.choices, "weights": self.weights, "own": {"array": self.array}}


@dataclass(init=False)
class OwnScale(Hyperparameter):
    """Ascending numbers, drawn by a discrete distribution on their positions."""

    ORDERABLE: ClassVar[bool] = True
    sequence: list
    p: float | None
    name: str
    default_value: Any
    meta: Mapping[Hashable, Any] | None
    size: int = field(init=False)

    def __init__(self, name, sequence, p=None, default_value=None, meta=None):
        self.sequence, self.p = list(sequence), p
        n = len(self.sequence)
        rv = stats.randint(0, n) if p is None else stats.binom(n - 1, p)
        dist = ScipyDiscreteDistribution(
            rv=rv, lower_vectorized=f64(0), upper_vectorized=f64(n - 1), _max_density=float(rv.pmf(np.arange(n)).max()),
        )
        super().__init__(
            name=name, size=n, default_value=self.sequence[0] if default_value is None else default_value, meta=meta,
            transformer=WRAP("transformer", TransformerSeq(seq=self.sequence)), vector_dist=WRAP("distribution", dist),
            neighborhood=WRAP("neighborhood", partial(ordinal_neighborhood, size=n)), neighborhood_size=self._around, value_cast=None,
        )

    def _around(self, value):
        if value not in self.sequence:
            return len(self.sequence)
        i = self.sequence.index(value)
        return (i > 0) + (i < len(self.sequence) - 1)

    def spec(self):
        return {"k": "ord", "name": self.name, "def": self.default_value, "seq": self.sequence, "own": {"p": self.p}}


class Stretch:
    """An own transformer: values to another range of vectors, linear or as a square."""

    def __init__(self, lower, upper, low, high, square, dtype):
        self.lower, self.upper, self.square, self.dtype = lower, upper, square, dtype
        self.lower_vectorized, self.upper_vectorized = f64(low), f64(high)

    def __eq__(self, other):
        return type(other) is Stretch and self.__dict__ == other.__dict__

    def to_value(self, vector):
        u = (np.asarray(vector, dtype=f64) - self.lower_vectorized) / (self.upper_vectorized - self.lower_vectorized)
        v = self.lower + (u**2 if self.square else u) * (self.upper - self.lower)
        return np.rint(v).astype(i64) if self.dtype is i64 else np.clip(v, self.lower, self.upper)

    def to_vector(self, value):
        u = (np.asarray(value, dtype=f64) - self.lower) / (self.upper - self.lower)
        return self.lower_vectorized + (np.sqrt(u) if self.square else u) * (self.upper_vectorized - self.lower_vectorized)

    def legal_value(self, value):
        return np.array([self.legal_value_single(v) for v in value], dtype=bool)

    def legal_vector(self, vector):
        return np.array([self.legal_vector_single(v) for v in vector], dtype=bool)

    def legal_value_single(self, value):
        ok = isinstance(value, (int, float, np.number)) and self.lower <= value <= self.upper
        return bool(ok and (self.dtype is f64 or value == np.rint(value)))

    def legal_vector_single(self, vector):
        if not self.lower_vectorized <= vector <= self.upper_vectorized:
            return False
        if self.dtype is f64:
            return True
        u = (vector - self.lower_vectorized) / (self.upper_vectorized - self.lower_vectorized)
        v = u * (self.upper - self.lower)
        return bool(abs(v - np.rint(v)) < 1e-6)


class Stretched(Hyperparameter):
    """Numbers whose vectors lie in another range than the unit interval."""

    ORDERABLE: ClassVar[bool] = True

    def __init__(self, name, rv, lower, upper, low, high, square, whole, offered):
        self.lower, self.upper, self.low, self.high, self.square, self.whole = lower, upper, low, high, square, whole
        fam = RVS[rv[0]](*rv[1])
        dist_rv = fam.dist(*fam.args, **{**fam.kwds, "loc": low + fam.kwds.get("loc", 0) * (high - low), "scale": fam.kwds.get("scale", 1) * (high - low)}) if rv[0] != "uniform" else stats.uniform(low, high - low)
        tr = Stretch(lower, upper, low, high, square, i64 if whole else f64)
        if whole:
            dist = DiscretizedContinuousScipyDistribution(rv=dist_rv, steps=upper - lower + 1, lower_vectorized=f64(low), upper_vectorized=f64(high))
        else:
            dist = ScipyContinuousDistribution(rv=dist_rv, lower_vectorized=f64(low), upper_vectorized=f64(high), _max_density=peak(rv) / (high - low))
        self.reference = dist_rv
        around = None
        if offered and whole:
            around = partial(quantized_neighborhood, lower=f64(low), upper=f64(high), bins=upper - lower + 1)
        elif offered:
            around = partial(continuous_neighborhood, lower=f64(low), upper=f64(high))
        super().__init__(
            name=name, size=upper - lower + 1 if whole else np.inf, default_value=int(lower) if whole else float(lower), transformer=tr, vector_dist=dist,
            neighborhood=around or dist.neighborhood, neighborhood_size=upper - lower if whole else np.inf, value_cast=int if whole else float,
        )


TYPES = (OwnInteger, OwnFloat, OwnChoice, OwnScale)


def own_variant(rng, d):
    """A definition with about the same domain but of an own type."""
    from rv.spec import legal_value

    k = d["k"]
    out = {x: d[x] for x in ("name", "meta") if x in d}
    if k in ("uint", "nint", "bint"):
        out |= {"k": "uint", "lo": d["lo"], "hi": d["hi"], "log": bool(d.get("log"))}
        even = not out["log"] and rng.random() < 0.3
        out["own"] = {"rv": None if even else gen_rv(rng)}
    elif k in ("ufloat", "nfloat", "bfloat"):
        out |= {"k": "ufloat", "lo": float(d["lo"]), "hi": float(d["hi"]), "log": bool(d.get("log"))}
        out["own"] = {"rv": None if rng.random() < 0.2 else gen_rv(rng)}
    elif k == "cat":
        out |= {"k": "cat", "choices": d["choices"], "own": {"array": rng.random() < 0.5}}
        if d.get("weights") is not None:
            out["weights"] = d["weights"]
    elif k in ("ord", "const"):
        n = rng.choice([1, 2, 3, 4, 6, 9])
        xs = rng.sample(range(-20, 40), n) if rng.random() < 0.6 else [rng.uniform(-5, 5) for _ in range(n)]
        out |= {"k": "ord", "seq": sorted(xs), "own": {"p": rng.choice([None, 0.1, 0.5, 0.7])}}
    if rng.random() < 0.7:
        out["def"] = legal_value(rng, out)
        if out["def"] is None:
            del out["def"]
    return out


def make(d):
    kw = {"default_value": d.get("def"), "meta": d.get("meta")}
    k, own = d["k"], d["own"]
    if k == "uint":
        return OwnInteger(d["name"], own["rv"], d["lo"], d["hi"], log=bool(d.get("log")), **kw)
    if k == "ufloat":
        return OwnFloat(d["name"], own["rv"], d["lo"], d["hi"], log=bool(d.get("log")), **kw)
    if k == "cat":
        return OwnChoice(d["name"], d["choices"], d.get("weights"), own["array"], **kw)
    return OwnScale(d["name"], d["seq"], own["p"], **kw)


def unit_rv(d):
    """Distribution on the unit scale of a number of an own type."""
    rv = d["own"]["rv"]
    return stats.uniform(0, 1) if rv is None else frozen(rv)


def chances(d):
    """Probabilities of the choices of an own type."""
    if d["k"] == "cat":
        w = d.get("weights") or [1] * len(d["choices"])
        return [x / sum(w) for x in w]
    n, p = len(d["seq"]), d["own"]["p"]
    return [1 / n] * n if p is None else stats.binom(n - 1, p).pmf(np.arange(n)).tolist()


def encode(hp, enc):
    """Encoder as a user writes it."""
    WRAP("encoder", None)
    return {"data": hp.spec(), "meta": hp.meta}


def decode(item, space, dec):
    WRAP("decoder", None)
    return make({**item["data"], "meta": item["meta"]})


ENCODERS = {t: ("own " + t.__name__, encode) for t in TYPES}
DECODERS = {"hyperparameters": {"own " + t.__name__: decode for t in TYPES}}
