"""Monitors shared by several checks."""
from __future__ import annotations

import numpy as np

from rv.model import Model, Undecided, index_in, same


def plain(v):
    """Plain Python form of a value (only for printing and hashing)."""
    return v.item() if hasattr(v, "item") else v


def values_of(cfg) -> dict:
    return dict(cfg)


def real_defaults(cs) -> dict:
    return {n: hp.default_value for n, hp in cs.items()}


def snapshot(cs):
    """Everything a user can see of a space, as plain data."""
    from rv.extract import spec_of

    sp = spec_of(cs)
    return repr(
        (
            list(cs.keys()),
            sp["hps"],
            sorted(map(repr, sp["conds"])),
            sorted(map(repr, sp["forbs"])),
            dict(cs.index_of) if hasattr(cs.index_of, "items") else None,
            list(cs.at),
            {n: sorted(h.name for h in cs.parents_of[n]) for n in cs},
            {n: sorted(h.name for h in cs.children_of[n]) for n in cs},
            sorted(cs.unconditional_hyperparameters),
            sorted(cs.conditional_hyperparameters),
            dict(cs.get_default_configuration()) if len(cs) else None,
        )
    )


def cfg_state(cfg):
    """Exact state of a configuration."""
    return (tuple((k, repr(plain(v))) for k, v in dict(cfg).items()), cfg.get_array().tobytes())


def fingerprint(model: Model, values) -> tuple:
    """Coarse state of a configuration: which are active, which discrete values."""
    out = []
    for n in sorted(values):
        hp = model.hps[n]
        if hp.is_float:
            out.append((n, "*"))
        elif hp.choices is not None:
            out.append((n, index_in(values[n], hp.choices)))
        else:
            out.append((n, int(values[n])))
    return tuple(out)


def vec_close(hp, got, want) -> bool:
    if hp.choices is not None:
        return got == want
    if got != got:
        return False
    span = abs(hp.hi) + abs(hp.lo)
    tol = 1e-9 + (1e-12 * span + 2e-13) / (hp.hi - hp.lo)
    if hp.log and not hp.is_int:
        import math

        tol = 1e-9 + 1e-12 / hp.lo / (math.log(hp.hi) - math.log(hp.lo))
    return abs(got - want) <= tol


def check_config(ctx, model: Model, cs, cfg, where: str, self_check: bool = True) -> bool:
    """Monitor: a configuration handed out by the library is valid in every respect."""
    values = dict(cfg)
    ok = True
    try:
        defects = model.defects(values)
    except Undecided:
        ctx.skip("rounding:" + where)
        return True
    ok &= ctx.check(not defects, where + "-valid", lambda: f"{sorted(defects)} in {values}")
    ok &= check_vector(ctx, model, cs, cfg, values, where)
    if self_check:
        try:
            cfg.check_valid_configuration()
        except ValueError as e:
            ok &= ctx.check(False, where + "-self-check", f"{e!r} for {values}")
        else:
            ok &= ctx.check(True, where + "-self-check")
    ctx.event("active-hyperparameters", len(values))
    ctx.event("inactive-hyperparameters", len(model.hps) - len(values))
    return ok


def check_vector(ctx, model, cs, cfg, values, where) -> bool:
    arr = np.asarray(cfg.get_array(), dtype=float)
    ok = ctx.check(arr.shape == (len(model.hps),), where + "-vector-shape", lambda: arr.shape)
    if not ok:
        return False
    bad = []
    for n, hp in model.hps.items():
        x = arr[cs.index_of[n]]
        if n in values:
            try:
                if not vec_close(hp, x, hp.vec(values[n])):
                    bad.append((n, values[n], x))
            except (ValueError, TypeError, OverflowError, ZeroDivisionError):
                bad.append((n, values[n], x))
        elif x == x:
            bad.append((n, "unset", x))
    return ctx.check(not bad, where + "-vector", lambda: f"{bad} in {values}")


def value_equal(x, y, rtol=1e-9) -> bool:
    """Equal, floats up to rounding."""
    if same(x, y):
        return True
    return isinstance(x, float) and isinstance(y, float) and abs(x - y) <= max(2e-13, rtol * max(1e-3, abs(x), abs(y)))


def values_equal(a, b, rtol=1e-9) -> bool:
    return a.keys() == b.keys() and all(value_equal(a[k], b[k], rtol) for k in a)
