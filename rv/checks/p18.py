"""P18: PCS round trips preserve the space."""
from __future__ import annotations

import io

from ConfigSpace import Configuration
from ConfigSpace.read_and_write import pcs, pcs_new

from rv.build import build, make_hp
from rv.extract import canon_hp, hp_spec
from rv.model import FLOATS, HP, INTS, Model, Undecided, child_of, forb_names
from rv.mon import snapshot
from rv.spec import acceptance, describe, gen_forb, gen_full_cond, gen_hp, gen_spec, legal_value, map_values, prior_pools, random_values
from rv.checks.p02 import mutate_values

RULE = "a state is a distinct (space, format) that was written and read back and whose behaviour was compared"
NEEDS = [
    "verdict:hyperparameters", "verdict:accepts-same", "verdict:rejects-same", "verdict:written", "verdict:space-untouched", "verdict:samples-valid",
    "format:pcs", "format:pcs_new", "outside:refused", "outside:faithful", "outside:odd-texts", "read:mixed", "read:str", "read:file", "cond:IN", "cond:EQ", "cond:AND", "cond:OR",
]
ASSUMPTIONS = [
    "choices are compared by their text, constants come back as single choices and priors of numeric hyperparameters are not part of the formats",
]
FORMATS = {"pcs": pcs, "pcs_new": pcs_new}
WORDS = ["rbf", "poly", "adam", "sgd", "relu", "low", "mid", "high", "x1", "a_b", "c-d", "None", "True", "e5", "7", "0.25", "-3"]


def text(v):
    return str(v.item() if hasattr(v, "item") else v)


def as_text(spec):
    """What the formats keep of a spec."""
    kind, hps = {}, []
    real = {d["name"]: make_hp(d).default_value for d in spec["hps"]}
    for d in spec["hps"]:
        k = d["k"]
        kind[d["name"]] = k
        if k in ("cat", "const"):
            ch = d["choices"] if k == "cat" else [d["value"]]
            e = {"k": "cat", "name": d["name"], "choices": [text(c) for c in ch], "def": text(real[d["name"]])}
        elif k == "ord":
            e = {"k": "ord", "name": d["name"], "seq": [text(c) for c in d["seq"]], "def": text(real[d["name"]])}
        else:
            e = {"k": "ufloat" if k in FLOATS else "uint", "name": d["name"], "lo": d["lo"], "hi": d["hi"], "log": bool(d.get("log")), "def": real[d["name"]]}
        hps.append(e)

    def val(n, v):
        return text(v) if kind[n] in ("cat", "const", "ord") else v

    def cond(c):
        if c[0] in ("AND", "OR"):
            return (c[0], [cond(x) for x in c[1]])
        if c[0] == "IN":
            return (*c[:3], [val(c[2], v) for v in c[3]])
        return (*c[:3], val(c[2], c[3]))

    def forb(f):
        if f[0] == "AND":
            return ("AND", [forb(x) for x in f[1]])
        if f[0] == "IN":
            return ("IN", f[1], [val(f[1], v) for v in f[2]])
        if f[0] == "EQ":
            return ("EQ", f[1], val(f[1], f[2]))
        return f

    return {"hps": hps, "conds": [cond(c) for c in spec["conds"]], "forbs": [forb(f) for f in spec["forbs"]]}


def judge(ctx, rng, spec, got, fmt):
    """The space read back against the textual spec."""
    want = as_text(spec)
    # a text that is read back as number is fine for the formats
    bad = []
    for d in want["hps"]:
        if d["name"] not in got:
            bad.append((d["name"], "missing"))
        elif canon_hp(hp_spec(got[d["name"]])) != canon_hp({**d, "weights": None} if d["k"] == "cat" else d):
            bad.append((d, hp_spec(got[d["name"]])))
    ctx.check(not bad and len(got) == len(want["hps"]), "hyperparameters", lambda: f"{fmt}: {bad} {list(got)}")
    if bad:
        return
    model = Model(want)
    defs = {d["name"]: d for d in want["hps"]}
    for c in want["conds"]:
        ctx.event("cond:" + c[0])
    for i in range(25):
        try:
            v = random_values(rng, model, defs)
            if i % 3 == 0:
                v = mutate_values(rng, model, defs, v)
            defects = model.defects(v)
        except Undecided:
            ctx.skip("rounding")
            continue
        try:
            Configuration(got, values=v)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (not defects), "rejects-same" if defects else "accepts-same", lambda: f"{fmt}: {v} defects {defects}, accepted {ok}, space {got}")
    # the formats keep no priors, and sampling a space that forbids nearly everything does not end
    often = acceptance(rng, model, prior_pools(rng, want["hps"])) >= 0.1
    if not often:
        ctx.skip("hardly anything allowed")
    for c in got.sample_configuration(8) if often else []:
        try:
            ctx.check(model.valid(dict(c)), "samples-valid", lambda: f"{fmt}: {dict(c)}: {model.defects(dict(c))}")
        except Undecided:
            ctx.skip("rounding")
    ctx.check(dict(got.get_default_configuration()).keys() == model.default({n: hp.default_value for n, hp in got.items()}).keys(), "default")
    ctx.state(repr(spec), fmt)


def read(ctx, rng, mod, s):
    r = rng.random()
    if r < 0.4:
        ctx.event("read:lines")
        return mod.read(s.split("\n"))
    if r < 0.7:
        ctx.event("read:str")
        return mod.read(s)
    ctx.event("read:file")
    return mod.read(io.StringIO(s))


def inside_spec(rng, fmt):
    """A space within the subset of a format."""
    n = rng.choice([2, 3, 4, 6])
    names = rng.sample(["alpha", "b", "c_1", "ordinal_x", "my-real", "integer", "k:l", "z.9", "Q", "categorical", "logging", "in"], n)
    hps = []
    for nm in names:
        k = rng.choice(["cat", "cat", "uint", "ufloat", "const"] + (["ord"] if fmt == "pcs_new" else []))
        d = gen_hp(rng, nm, kinds=[k], small=True)
        d.pop("weights", None)
        if k in ("cat", "ord"):
            w = rng.sample(WORDS, rng.choice([1, 2, 3, 4]))
            d["choices" if k == "cat" else "seq"] = w
            d["def"] = rng.choice(w)
        if k == "const":
            d["value"] = rng.choice([1, "c", 2.5, True, "x-y"])
        hps.append(d)
    conds = []
    for i in range(1, n):
        if rng.random() < 0.6:
            for _ in range(20):
                c = gen_full_cond(rng, names[i], hps[:i])
                if simple(c, fmt):
                    conds.append(c)
                    break
    spec = {"hps": hps, "conds": conds, "forbs": []}
    real = {d["name"]: make_hp(d).default_value for d in hps}
    for _ in range(rng.choice([0, 1, 3])):
        f = gen_forb(rng, hps)
        if "R" in repr(f[0]) or any(x in repr(f) for x in ("'RLT'", "'REQ'", "'RGT'")):
            continue
        trial = {**spec, "forbs": [*spec["forbs"], f]}
        m = Model(trial)
        defs = {d["name"]: d for d in hps}
        try:
            if m.forbidden(m.default(real)):
                continue
            if sum(not m.forbidden(random_values(rng, m, defs)) for _ in range(40)) < 16:
                continue
        except Undecided:
            continue
        spec = trial
    return spec


def simple(c, fmt):
    if c[0] in ("AND", "OR"):
        if fmt == "pcs" and c[0] == "OR":
            return False
        return all(x[0] not in ("AND", "OR") and simple(x, fmt) for x in c[1])
    return fmt == "pcs_new" or c[0] in ("EQ", "IN")


def case_inside(ctx, rng):
    fmt = rng.choice(["pcs", "pcs_new"])
    spec = inside_spec(rng, fmt)
    ctx.note(spec=spec, fmt=fmt)
    ctx.event("format:" + fmt)
    cs = build(spec, seed=1, rng=rng)
    before = snapshot(cs)
    try:
        s = FORMATS[fmt].write(cs)
        ctx.note(text=s)
        got = read(ctx, rng, FORMATS[fmt], s)
    except Exception as e:  # noqa: BLE001
        ctx.check(False, "written", lambda: f"{fmt}: {e!r}")
        raise
    ctx.check(True, "written")
    ctx.check(snapshot(cs) == before, "space-untouched", fmt)
    judge(ctx, rng, spec, got, fmt)
    again = FORMATS[fmt].read(FORMATS[fmt].write(got).split("\n"))
    ctx.check(again == got, "stable", lambda: f"{fmt}: {got}\n{again}")
    ctx.sample({"format": fmt, "text": s})


ODD_TEXTS = [
    "a,b", "a, b", "x#y", "#", "it's", '"q"', "'", " a", "a ", "a b", "", " ", "{", "}", "a}", "[", "]", "a|b", "a||b", "a&&b", "&&", "&", "==", "a==b", "=", "in", "log", "<", ">", "!=",
    "1", "1.0", "1e5", "+1", "-1", "0", "None", "True", "nan", "é", "a\nb", "\t", "a:b", "a;b", "%s", "real", "integer", "i", "l", "il", ",",
]


def case_outside(ctx, rng):
    """Any space: either an error or the same behaviour, never something else."""
    fmt = rng.choice(["pcs", "pcs_new"])
    spec = gen_spec(rng, n=rng.choice([2, 3, 5]), small=True, p_cond=rng.choice([0.3, 0.8]))
    if rng.random() < 0.4:
        # texts that mean something in the formats
        odd = {}

        def change(name, v):
            if isinstance(v, str):
                if (name, v) not in odd:
                    odd[name, v] = rng.choice([t for t in ODD_TEXTS if t not in [b for (a, _), b in odd.items() if a == name]])
                return odd[name, v]
            return v

        spec = map_values(spec, change)
        ctx.event("outside:odd-texts")
    ctx.note(spec=spec, fmt=fmt)
    cs = build(spec, seed=1, rng=rng)
    before = snapshot(cs)
    try:
        s = FORMATS[fmt].write(cs)
        ctx.note(text=s)
        got = FORMATS[fmt].read(s.split("\n"))
    except Exception:  # noqa: BLE001
        ctx.event("outside:refused")
        ctx.check(snapshot(cs) == before, "space-untouched", fmt)
        return
    ctx.event("outside:faithful")
    ctx.check(snapshot(cs) == before, "space-untouched", fmt)
    judge(ctx, rng, spec, got, fmt)


def case_mixed(ctx, rng):
    """Hand written conditions mixing && and ||, of which && binds stronger."""
    hps = [
        {"k": "cat", "name": "a", "choices": ["x", "y", "z"], "def": "x"},
        {"k": "ord", "name": "b", "seq": ["p", "q", "r"], "def": "p"},
        {"k": "uint", "name": "c", "lo": 0, "hi": 5, "def": 2},
        {"k": "ufloat", "name": "d", "lo": 0.0, "hi": 1.0, "def": 0.5},
        {"k": "uint", "name": "child", "lo": 1, "hi": 9, "def": 3},
    ]
    lines = [
        "a categorical {x, y, z} [x]  # a comment", "b ordinal {p, q, r} [p]", "c integer [0, 5] [2]", "", "d real [0.0, 1.0] [0.5]", "child integer [1, 9] [3]",
    ]

    def atom():
        p = rng.choice("abcd")
        d = next(h for h in hps if h["name"] == p)
        v = 0.5 if p == "d" else legal_value(rng, d)
        op = rng.choice({"a": ["EQ", "NE", "IN"], "b": ["EQ", "NE", "IN", "LT", "GT"], "c": ["EQ", "NE", "IN", "LT", "GT"], "d": ["LT", "GT"]}[p])
        if op == "IN":
            vs = []
            for _ in range(3):
                w = legal_value(rng, d)
                if w not in vs:
                    vs.append(w)
            return ("IN", "child", p, vs), f"{p} in {{{', '.join(map(str, vs))}}}"
        return (op, "child", p, v), f"{p} {dict(EQ='==', NE='!=', LT='<', GT='>')[op]} {v}"

    ors, texts = [], []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ands = [atom() for _ in range(rng.choice([1, 2, 2, 3]))]
        if len({repr(a[0]) for a in ands}) < len(ands):
            ands = ands[:1]
        ors.append(ands[0][0] if len(ands) == 1 else ("AND", [a[0] for a in ands]))
        texts.append(" && ".join(a[1] for a in ands))
    c = ors[0] if len(ors) == 1 else ("OR", ors)
    lines.append("child | " + " || ".join(texts))
    rng.shuffle(lines)
    spec = {"hps": hps, "conds": [c], "forbs": []}
    ctx.note(spec=spec, text=lines)
    ctx.event("read:mixed")
    got = pcs_new.read(lines)
    judge(ctx, rng, spec, got, "pcs_new")


QUICK_TIMES = 4  # the quick tier runs the first numbers below this many times over
CASES = [
    ("inside", case_inside, 60, 2000),
    ("outside", case_outside, 60, 2000),
    ("mixed", case_mixed, 20, 400),
]
