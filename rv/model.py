"""Reference model of a configuration space, written from the documented semantics.

Works on plain specs (see spec.py) and plain dicts of values and imports nothing from
the code under test.
"""
from __future__ import annotations

import math

FLOATS = ("ufloat", "nfloat", "bfloat")
INTS = ("uint", "nint", "bint")
NUM = FLOATS + INTS


class Undecided(Exception):
    """Two floats are too close to each other to say how they compare."""


def choices_of(hp):
    k = hp["k"]
    if k == "cat":
        return list(hp["choices"])
    if k == "ord":
        return list(hp["seq"])
    if k == "const":
        return [hp["value"]]
    return None


def same(a, b) -> bool:
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def index_in(value, seq) -> int:
    for i, c in enumerate(seq):
        if same(c, value):
            return i
    return -1


def is_num(v) -> bool:
    import numbers

    return isinstance(v, numbers.Number) and not isinstance(v, complex)


class HP:
    """Reference of a single hyperparameter."""

    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.k = d["k"]
        self.choices = choices_of(d)
        if self.k in NUM:
            self.lo, self.hi, self.log = d["lo"], d["hi"], bool(d.get("log"))

    @property
    def is_float(self):
        return self.k in FLOATS

    @property
    def is_int(self):
        return self.k in INTS

    @property
    def size(self):
        if self.is_float:
            return math.inf
        if self.is_int:
            return self.hi - self.lo + 1
        return len(self.choices)

    @property
    def orderable(self):
        return self.k in NUM or self.k == "ord"

    def legal(self, v) -> bool:
        """Whether `v` is a legal value; raises Undecided in a rounding zone."""
        if self.choices is not None:
            return index_in(v, self.choices) >= 0
        if not is_num(v) or v != v:
            return False
        if self.is_float:
            return self.lo <= v <= self.hi
        if v in (math.inf, -math.inf):
            return False
        f = v - math.floor(v)
        if 0 < f < 0.2 or f > 0.8:
            raise Undecided
        return f == 0 and self.lo <= v <= self.hi

    def vec(self, v) -> float:
        """Vector entry of a legal value."""
        if self.k == "const":
            return 1.0
        if self.choices is not None:
            return float(index_in(v, self.choices))
        if self.log:
            return (math.log(v) - math.log(self.lo)) / (math.log(self.hi) - math.log(self.lo))
        return (v - self.lo) / (self.hi - self.lo)

    def legal_vec(self, x: float) -> bool:
        """Whether a vector entry represents a legal value."""
        if x != x or x in (math.inf, -math.inf):
            return False
        if self.k == "const":
            return x == 1
        if self.choices is not None:
            if x != round(x) and abs(x - round(x)) < 1e-6:
                raise Undecided
            return x == round(x) and 0 <= x < len(self.choices)
        if self.is_float:
            return 0 <= x <= 1
        if x > 3 or x < -3:
            return False
        if self.log:
            v = math.exp(math.log(self.lo) + x * (math.log(self.hi) - math.log(self.lo)))
        else:
            v = self.lo + x * (self.hi - self.lo)
        if abs(v - round(v)) <= 1e-9 * max(1, abs(v)):
            return self.lo <= round(v) <= self.hi
        if self.lo < v < self.hi or self.lo - 0.7 < v < self.hi + 0.7:
            f = v - math.floor(v)
            if not 0.31 < f < 0.69 or max(abs(v), abs(v - self.lo)) > 20000:
                raise Undecided  # vector entries are tolerant to relative errors of 1e-5
        return False

    def unvec(self, x: float):
        """Value of a legal vector entry (floats unrounded)."""
        if self.k == "const":
            return self.d["value"]
        if self.choices is not None:
            return self.choices[int(round(x))]
        if self.log:
            v = math.exp(math.log(self.lo) + x * (math.log(self.hi) - math.log(self.lo)))
        else:
            v = self.lo + x * (self.hi - self.lo)
        if self.is_int:
            return int(round(v))
        return min(max(v, self.lo), self.hi)

    def all_values(self, limit: int = 10000):
        """All values of a finite hyperparameter, else None."""
        if self.choices is not None:
            return list(self.choices)
        if self.is_int and self.size <= limit:
            return list(range(self.lo, self.hi + 1))
        return None


def dlcs(c):
    if c[0] in ("AND", "OR"):
        for x in c[1]:
            yield from dlcs(x)
    else:
        yield c


def child_of(c):
    return next(dlcs(c))[1]


def parents_of(c):
    out = []
    for x in dlcs(c):
        if x[2] not in out:
            out.append(x[2])
    return out


def forb_names(f):
    if f[0] == "AND":
        out = []
        for x in f[1]:
            for n in forb_names(x):
                if n not in out:
                    out.append(n)
        return out
    if f[0] in ("RLT", "REQ", "RGT"):
        return [f[1], f[2]]
    return [f[1]]


def close(a, b) -> bool:
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


class Model:
    """Reference of a whole space."""

    fuzzy = False  # floats were computed from a vector: equal ones are undecided, too

    def __init__(self, spec):
        self.spec = spec
        self.hps = {d["name"]: HP(d) for d in spec["hps"]}
        self.cond = {child_of(c): c for c in spec["conds"]}
        self.forbs = list(spec["forbs"])
        # parents first
        self.order = []
        seen = set()

        def visit(n):
            if n in seen:
                return
            seen.add(n)
            if n in self.cond:
                for p in parents_of(self.cond[n]):
                    visit(p)
            self.order.append(n)

        for n in self.hps:
            visit(n)

    # -- conditions
    def holds(self, c, values) -> bool:
        """Condition `c` under `values`, which holds the active values only."""
        op = c[0]
        if op == "AND":
            return all([self.holds(x, values) for x in c[1]])
        if op == "OR":
            return any([self.holds(x, values) for x in c[1]])
        p = c[2]
        if p not in values:
            return False
        v, hp = values[p], self.hps[p]
        if op == "IN":
            return any(self._eq(hp, v, w) for w in c[3])
        w = c[3]
        if op == "EQ":
            return self._eq(hp, v, w)
        if op == "NE":
            return not self._eq(hp, v, w)
        if hp.k == "ord":
            a, b = index_in(v, hp.choices), index_in(w, hp.choices)
        else:
            a, b = v, w
            if hp.is_float and (a != b or self.fuzzy) and close(a, b):
                raise Undecided
        return a < b if op == "LT" else a > b

    def _eq(self, hp, v, w) -> bool:
        if hp.is_float and (v != w or self.fuzzy) and close(v, w):
            raise Undecided
        return same(v, w)

    def active_names(self, values) -> list[str]:
        """Names active under the given values; values of inactive ones are ignored."""
        live, out = {}, []
        for n in self.order:
            if n not in self.cond or self.holds(self.cond[n], live):
                out.append(n)
                if n in values:
                    live[n] = values[n]
        return out

    # -- forbidden clauses
    def matches(self, f, values) -> bool:
        op = f[0]
        if op == "AND":
            return all([self.matches(x, values) for x in f[1]])
        if op == "EQ":
            return f[1] in values and self._eq(self.hps[f[1]], values[f[1]], f[2])
        if op == "IN":
            return f[1] in values and any(
                self._eq(self.hps[f[1]], values[f[1]], w) for w in f[2]
            )
        if f[1] not in values or f[2] not in values:
            return False
        a, b = values[f[1]], values[f[2]]
        # exact for choices and integers, subject to rounding for scaled floats
        if (self.hps[f[1]].is_float or self.hps[f[2]].is_float) and close(a, b):
            raise Undecided
        if op == "RLT":
            return a < b
        if op == "REQ":
            return same(a, b)
        return a > b

    def forbidden(self, values):
        """Clauses matched by the active values."""
        return [f for f in self.forbs if self.matches(f, values)]

    # -- validity
    def defects(self, values) -> set[str]:
        """All kinds of defects of an assignment; empty if it is valid."""
        out = set()
        for n, v in values.items():
            if n not in self.hps:
                out.add("unknown")
            elif not self.hps[n].legal(v):
                out.add("illegal")
        if out:
            return out
        act = set(self.active_names(values))
        if any(n not in values for n in act):
            out.add("unset")
        if any(n not in act for n in values):
            out.add("inactive")
        live = {n: v for n, v in values.items() if n in act}
        if not out and self.forbidden(live):
            out.add("forbidden")
        return out

    def valid(self, values) -> bool:
        return not self.defects(values)

    # -- defaults
    def derived_default(self, name):
        d = self.hps[name].d
        return d.get("def") if "def" in d else None

    def complete(self, values, defaults):
        """Keep active values, drop inactive ones, fill active gaps with defaults."""
        live = {}
        for n in self.order:
            if n not in self.cond or self.holds(self.cond[n], live):
                live[n] = values[n] if n in values else defaults[n]
        return live

    def default(self, defaults):
        return self.complete({}, defaults)

    def assign(self, values, name, value, defaults):
        """Expected result of assigning a value to a valid configuration."""
        new = dict(values)
        new[name] = value
        return self.complete(new, defaults)

    # -- enumeration
    def enumerate(self, sets, limit=20000):
        """All valid configurations with values taken from `sets` (name -> list)."""
        out = []

        def rec(i, live):
            if len(out) > limit:
                raise OverflowError
            if i == len(self.order):
                if not self.forbidden(live):
                    out.append(dict(live))
                return
            n = self.order[i]
            if n in self.cond and not self.holds(self.cond[n], live):
                rec(i + 1, live)
                return
            for v in sets[n]:
                live[n] = v
                rec(i + 1, live)
                del live[n]

        rec(0, {})
        return out
