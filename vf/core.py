"""Property-based-testing core: parts, violations, the worker loop."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
from dataclasses import dataclass
from typing import Any, Callable


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


def fail(msg, key=None):
    raise Violation(msg, key)


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


@contextlib.contextmanager
def sut(what="call into the code under test"):
    """Wrap calls on *valid* inputs: any exception is a violation."""
    try:
        yield
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:][::-1]
        )
        raise Violation(
            f"{what}: unexpected {type(e).__name__}: {str(e)[:600]} [{where}]"
        ) from None


@dataclass
class Part:
    name: str
    strategy: Callable[[], Any]  # () -> hypothesis strategy producing JSON-able cases
    check: Callable[[Any], Any]  # case -> dict(nontrivial=bool, labels=[..]) or None
    quick: int  # number of cases over all shards in the quick tier
    thorough: int = 0  # per round; defaults to quick


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def run_case(part, case):
    """Run one case; returns info dict, raises Violation."""
    with sut("evaluating the case"):
        info = part.check(case)
    if info is None:
        info = {}
    info.setdefault("nontrivial", True)
    info.setdefault("labels", [])
    return info


def run_part(part, n, seed, deadline, stats, known_keys, skip_first, shrink_s):
    """Drive one part with Hypothesis. Returns None or (case, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = shrink_s
    failing = {}
    state = dict(first=True, failed=False, fail_deadline=None)

    def body(case):
        if state["first"] and skip_first:
            state["first"] = False
            return
        state["first"] = False
        if not state["failed"] and time.time() > deadline:
            stats["skipped_time"] += 1
            return
        if state["failed"] and time.time() > state["fail_deadline"]:
            # Out of shrinking time: only the recorded minimum still fails.
            if case_key(case) != failing.get("key"):
                return
        try:
            info = run_case(part, case)
        except Violation as v:
            if v.key is not None and v.key in known_keys:
                stats["known"].setdefault(v.key, str(v)[:300])
                return
            if not state["failed"]:
                state["failed"] = True
                state["fail_deadline"] = time.time() + shrink_s
            failing["case"] = case
            failing["key"] = case_key(case)
            failing["msg"] = str(v)
            # constant message/location so Hypothesis sees one bug
            raise
        if state["failed"]:
            return
        stats["evaluations"] += info.get("evals", 1)
        stats["cases"] += 1
        for lab in info["labels"]:
            k = f"{part.name}/{lab}"
            stats["labels"][k] = stats["labels"].get(k, 0) + 1
        if info["nontrivial"]:
            k = case_key(case)
            if k not in stats["seen"]:
                stats["seen"].add(k)
                stats["nontrivial"] += 1
                stats["part_nontrivial"][part.name] = (
                    stats["part_nontrivial"].get(part.name, 0) + 1
                )
                if len(stats["samples"].setdefault(part.name, [])) < 1:
                    stats["samples"][part.name].append(case)

    test = given(part.strategy())(body)
    test = settings(
        max_examples=n + (1 if skip_first else 0),
        database=None,
        deadline=None,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation:
        pass
    except HarnessError:
        raise
    except Exception:
        if not failing:
            raise
        # e.g. Hypothesis' Flaky; the parent re-confirms the recorded case
        stats["notes"].append(traceback.format_exc()[-400:])
    if failing:
        return failing["case"], failing["msg"]
    return None


def worker_main(argv):
    pid, shard, nshards, seed, tier, outfile, budget, rnd = argv
    shard, nshards, seed, rnd = int(shard), int(nshards), int(seed), int(rnd)
    t_start = time.time()
    deadline = t_start + float(budget)
    out = {"status": "error", "msg": "worker died"}
    stats = dict(
        evaluations=0, cases=0, nontrivial=0, skipped_time=0, labels={}, seen=set(),
        samples={}, part_nontrivial={}, known={}, notes=[],
    )
    try:
        mod = load(pid)
        known = known_findings(pid)
        found = None
        parts = mod.PARTS
        for i, part in enumerate(parts):
            total = part.quick if tier == "quick" else (part.thorough or part.quick)
            n = total // nshards + (1 if (shard + i) % nshards < total % nshards else 0)
            if n <= 0:
                continue
            s = (seed * 1000003 + rnd * 7919 + shard * 101 + i * 13 + 1) % (2**31)
            found = run_part(
                part, n, s, deadline, stats, known, skip_first=(shard != 0 or rnd != 0),
                shrink_s=30 if tier == "quick" else 90,
            )
            if found is not None:
                out = {"status": "violation", "part": part.name, "case": found[0],
                       "msg": found[1]}
                break
        if found is None:
            out = {"status": "ok"}
    except BaseException:  # noqa: BLE001
        out = {"status": "error", "msg": traceback.format_exc()[-3000:]}
    stats["seen"] = sorted(stats["seen"])
    out["stats"] = stats
    out["wall"] = time.time() - t_start
    tmp = outfile + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f, default=str)
    os.replace(tmp, outfile)
    sys.stdout.flush()
    os._exit(0)


def load(pid):
    import importlib

    return importlib.import_module(f"vf.checks.{pid.lower()}")


def known_findings(pid):
    """Open (unrepaired) findings, keyed by the specific failing input/call site."""
    path = os.path.join(
        os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        "KNOWN_FINDINGS.txt",
    )
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = line[len("known: "):].split(" ", 2)
                if f[0] == f"property={pid}" and f[1].startswith("key="):
                    keys[f[1][4:]] = f[2] if len(f) > 2 else ""
    return keys
