"""Run context of a check: counters, verdicts, known findings, evidence, sharding."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from rv.model import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
SHARDS = 8
CASE_CPU_S = 60  # CPU seconds a single case may use; cases normally need < 2 s
MAX_VIOLATIONS = 20  # per shard, after which a shard stops


class NoTermination(BaseException):
    """A single case used far more CPU time than such a case can need."""


class Stop(Exception):
    """Stop the shard, enough violations."""


def fp(obj) -> int:
    """Fingerprint of an observed state."""
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf8", "replace"), digest_size=8).digest(), "big"
    )


def load_known(prop: str) -> dict[str, str]:
    """Known findings of this property: mechanism key -> text."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            _, p, m, text = line.split(" ", 3)
            if p == f"property={prop}":
                out[m.removeprefix("mechanism=")] = text
    return out


class Ctx:
    """What one shard of a check observed."""

    def __init__(self, prop: str, seed: int, tier: str, shard: int, known: dict[str, str]):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.shard = shard
        self.known = known
        self.evaluations = 0  # verdicts taken by the monitors
        self.cases = 0
        self.events: Counter = Counter()  # what the monitors saw, by kind
        self.skips: Counter = Counter()  # where a monitor could not decide
        self.states: set[int] = set()  # distinct non-trivial observations
        self.samples: list = []
        self.violations: list[dict] = []
        self.known_hits: Counter = Counter()
        self.case_id = None
        self.note_: dict = {}

    # -- observing
    def event(self, kind: str, n: int = 1) -> None:
        self.events[kind] += n

    def skip(self, kind: str, n: int = 1) -> None:
        self.skips[kind] += n

    def state(self, *obj) -> None:
        self.states.add(fp(obj))

    def note(self, **kw) -> None:
        """Remember details for a possible replay file."""
        self.note_.update(kw)

    def sample(self, obj, every: int = 1) -> None:
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- judging
    def check(self, ok, kind: str, detail=None, mech: str | None = None) -> bool:
        """One verdict of a monitor. `kind` names the rule, `mech` a known mechanism."""
        self.evaluations += 1
        self.events["verdict:" + kind] += 1
        if ok:
            return True
        self.violate(kind, detail, mech)
        return False

    def violate(self, kind: str, detail=None, mech: str | None = None) -> None:
        if mech is not None and mech in self.known:
            self.known_hits[mech] += 1
            return
        if callable(detail):
            detail = detail()
        self.violations.append(
            {
                "property": self.prop,
                "rule": kind,
                "detail": str(detail)[:4000],
                "case": self.case_id,
                "notes": {k: str(v)[:20000] for k, v in self.note_.items()},
            }
        )
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop


def _alarm(signum, frame):
    raise NoTermination


def run_case(ctx: Ctx, fn, case_id: str) -> None:
    """Run one case; anything escaping from the code under test is a violation."""
    ctx.case_id = case_id
    ctx.note_ = {}
    ctx.cases += 1
    rng = random.Random(case_id)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        fn(ctx, rng)
    except (Stop, KeyboardInterrupt, SystemExit):
        raise
    except Undecided:
        ctx.skip("case:undecided")
    except NoTermination:
        ctx.violate("does-not-terminate", f"more than {CASE_CPU_S} s of CPU time\n" + traceback.format_exc())
        raise Stop from None
    except BaseException as e:  # noqa: BLE001
        ctx.violate(f"unexpected-{type(e).__name__}", traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _shard(args):
    prop, seed, tier, shard, known, budget_s = args
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"rv.checks.{prop.lower()}")
    ctx = Ctx(prop, seed, tier, shard, known)
    t0 = time.time()
    try:
        for name, fn, quick, thorough in mod.CASES:
            n = quick * getattr(mod, "QUICK_TIMES", 1) if tier == "quick" else thorough
            for i in range(n):
                # the time cap only limits how much is explored, never a verdict
                if time.time() - t0 > budget_s:
                    ctx.skip("time-cap:" + name, n - i)
                    break
                run_case(ctx, fn, f"{seed}/{prop}/{name}/{shard}/{i}")
    except Stop:
        pass
    return ctx.__dict__


def execute(prop: str, seed: int, tier: str) -> int:
    t0 = time.time()
    known = load_known(prop)
    mod = importlib.import_module(f"rv.checks.{prop.lower()}")
    budget = 100 if tier == "quick" else 700
    nproc = min(SHARDS, os.cpu_count() or 1)
    args = [(prop, seed, tier, s, known, budget) for s in range(SHARDS)]
    if os.environ.get("RV_SERIAL"):
        parts = [_shard(a) for a in args]
    else:
        # A worker that dies (e.g. the code under test exhausts memory) breaks the pool
        from concurrent.futures import ProcessPoolExecutor

        with ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as ex:
            futs = [ex.submit(_shard, a) for a in args]
            parts = []
            for f in futs:
                try:
                    parts.append(f.result())
                except Exception as e:  # noqa: BLE001
                    print(f"ERROR worker of {prop} failed: {e!r}", flush=True)
                    traceback.print_exc()
                    return 2
    return conclude(prop, seed, tier, mod, parts, t0, known)


def conclude(prop, seed, tier, mod, parts, t0, known) -> int:
    events, skips, hits = Counter(), Counter(), Counter()
    states: set[int] = set()
    samples, violations = [], []
    evaluations = cases = 0
    for p in parts:
        events.update(p["events"])
        skips.update(p["skips"])
        hits.update(p["known_hits"])
        states |= p["states"]
        samples += p["samples"][:2]
        violations += p["violations"]
        evaluations += p["evaluations"]
        cases += p["cases"]

    need = getattr(mod, "NEEDS", [])
    missing = [k for k in need if not any(e == k or e.startswith(k) for e, n in events.items() if n)]

    os.makedirs(EVIDENCE, exist_ok=True)
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": samples[:6],
            "cases": cases,
            "monitor_events": dict(sorted(events.items())),
            "undecided": dict(sorted(skips.items())),
            "known_finding_observations": dict(sorted(hits.items())),
            "shards": SHARDS,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    tmp = os.path.join(EVIDENCE, f".{prop}.json.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))

    for mech, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {mech}: {known[mech]} (observed {n} times)")

    if violations:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{seed}-{tier}.json")
        with open(path, "w") as f:
            json.dump(violations[:50], f, indent=1)
        kinds = Counter(v["rule"] for v in violations)
        print(f"VIOLATION property={prop} replay={path}")
        for k, n in kinds.most_common(8):
            first = next(v for v in violations if v["rule"] == k)
            print(f"  {n}x {k}: case {first['case']}: {first['detail'][:600]}")
        return 1
    if missing:
        print(f"INCONCLUSIVE property={prop}: never observed {missing}")
        return 3
    print(
        f"HELD property={prop} cases={cases} verdicts={evaluations} distinct={len(states)}"
        f" wall={time.time() - t0:.1f}s"
    )
    return 0


def replay(path: str) -> int:
    """Run the cases of a replay file again."""
    with open(path) as f:
        items = json.load(f)
    prop = items[0]["property"]
    known = load_known(prop)
    mod = importlib.import_module(f"rv.checks.{prop.lower()}")
    fns = {name: fn for name, fn, *_ in mod.CASES}
    signal.signal(signal.SIGPROF, _alarm)
    warnings.simplefilter("ignore")
    seen = []
    for it in items:
        if it["case"] in seen:
            continue
        seen.append(it["case"])
        seed, _, name, shard, _i = it["case"].split("/")
        ctx = Ctx(prop, int(seed), "quick", int(shard), known)
        try:
            run_case(ctx, fns[name], it["case"])
        except Stop:
            pass
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        if ctx.violations:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    print("replay: no violation")
    return 0


def main(argv: list[str]) -> int:
    sys.path.insert(0, os.path.join(REPO, "src"))
    import ConfigSpace

    want = os.path.realpath(os.path.join(REPO, "src"))
    if not os.path.realpath(ConfigSpace.__file__).startswith(want):
        print(f"ERROR: ConfigSpace imported from {ConfigSpace.__file__}, not from {want}")
        return 2
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    return execute(prop, seed, tier)
