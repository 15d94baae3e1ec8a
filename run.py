#!/usr/bin/env python3
"""usage: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Parent process: spawns worker processes which drive Hypothesis over generated cases,
confirms any failure in a fresh process, writes the evidence file.
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vf.boot import PY, ensure_deps  # noqa: E402
from vf.core import known_findings  # noqa: E402

NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        HYPOTHESIS_STORAGE_DIRECTORY=tempfile.gettempdir() + "/hyp-unused",
    )
    e.pop("PYTHONPATH", None)
    return e


def replay(path):
    p = subprocess.run(
        [PY, os.path.join(ROOT, "vf", "worker.py"), "--replay", path],
        env=env(), capture_output=True, text=True, cwd=ROOT,
    )
    return p.returncode, p.stdout, p.stderr


def round_(pid, tier, seed, rnd, budget, hard):
    """One round of NSHARDS workers. Returns list of results."""
    with tempfile.TemporaryDirectory(prefix="vf-") as tmp:
        procs = []
        for s in range(NSHARDS):
            out = os.path.join(tmp, f"{s}.json")
            err = open(os.path.join(tmp, f"{s}.err"), "w+")
            p = subprocess.Popen(
                [PY, os.path.join(ROOT, "vf", "worker.py"), pid, str(s), str(NSHARDS),
                 str(seed), tier, out, str(budget), str(rnd)],
                env=env(), stdout=err, stderr=err, cwd=ROOT,
            )
            procs.append((s, p, out, err))
        t0 = time.time()
        results = {}
        pending = list(procs)
        violated = False
        while pending:
            time.sleep(0.1)
            for item in list(pending):
                s, p, out, err = item
                if p.poll() is not None:
                    pending.remove(item)
                    if os.path.exists(out):
                        results[s] = json.load(open(out))
                        if results[s]["status"] == "violation":
                            violated = True
                    else:
                        err.seek(0)
                        results[s] = {
                            "status": "error",
                            "msg": f"worker exit {p.returncode}: " + err.read()[-2000:],
                            "stats": None,
                        }
            if pending and (violated or time.time() - t0 > hard):
                for item in pending:
                    item[1].kill()
                    item[1].wait()
                    results[item[0]] = {
                        "status": "stopped" if violated else "timeout", "stats": None,
                    }
                pending = []
        for item in procs:
            item[3].close()
        return [results[s] for s in sorted(results)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ensure_deps()
    pid = a.property
    if a.replay:
        rc, out, err = replay(os.path.abspath(a.replay))
        sys.stdout.write(out)
        sys.stderr.write(err[-2000:])
        if rc == 1:
            print(f"VIOLATION property={pid} replay={a.replay}")
        sys.exit(rc)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier
    t0 = time.time()
    # A time budget is only a safety net: hitting it means fewer cases, never an alarm.
    budget, hard = (400, 700) if tier == "quick" else (600, 1500)
    rounds = 1 if tier == "quick" else int(os.environ.get("VERIF_ROUNDS", "6"))
    allres = []
    for rnd in range(rounds):
        res = round_(pid, tier, seed, rnd, budget, hard)
        allres += res
        if any(r["status"] in ("violation", "error") for r in res):
            break
    agg = dict(evaluations=0, cases=0, skipped_time=0, labels={}, samples=[], parts={})
    seen = set()
    known_hit = {}
    for r in allres:
        st = r.get("stats")
        if not st:
            continue
        agg["evaluations"] += st["evaluations"]
        agg["cases"] += st["cases"]
        agg["skipped_time"] += st["skipped_time"]
        for k, v in st["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        new = set(st["seen"]) - seen
        seen |= new
        for k, v in st["part_nontrivial"].items():
            agg["parts"][k] = agg["parts"].get(k, 0) + v
        for k, v in st["samples"].items():
            if sum(1 for s in agg["samples"] if s["part"] == k) < 2:
                agg["samples"] += [{"part": k, "case": c} for c in v]
        known_hit.update(st["known"])
    errors = [r for r in allres if r["status"] == "error"]
    viols = [r for r in allres if r["status"] == "violation"]
    confirmed = None
    unconfirmed = []
    rep_dir = os.path.join(ROOT, "replays")
    for v in viols:
        os.makedirs(rep_dir, exist_ok=True)
        rec = {"property": pid, "part": v["part"], "case": v["case"], "msg": v["msg"]}
        h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rep_dir, f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        rc, out, err = replay(path)
        if rc == 1:
            confirmed = (path, v)
            break
        unconfirmed.append((path, v, rc, err[-500:]))
    import importlib.util

    meta = {}
    mp = os.path.join(ROOT, "vf", "rules.json")
    if os.path.exists(mp):
        meta = json.load(open(mp)).get(pid, {})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(seen),
            "rule": meta.get("rule", ""),
            "samples": agg["samples"][:12],
            "cases": agg["cases"],
            "nontrivial_by_part": agg["parts"],
            "distribution": dict(sorted(agg["labels"].items())),
            "cases_skipped_by_time_budget": agg["skipped_time"],
            "workers_stopped_by_time_limit": sum(
                r["status"] == "timeout" for r in allres
            ),
            "known_findings_hit": known_hit,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, desc in known_findings(pid).items():
        print(f"KNOWN-FINDING: property={pid} {k} {desc}")
    print(
        f"{pid} tier={tier} seed={seed}: {agg['cases']} cases, "
        f"{agg['evaluations']} evaluations, {len(seen)} distinct non-trivial, "
        f"{ev['wall_s']}s"
    )
    if confirmed:
        print(f"part={confirmed[1]['part']}: {confirmed[1]['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={confirmed[0]}")
        sys.exit(1)
    if unconfirmed:
        for path, v, rc, err in unconfirmed:
            print(f"UNCONFIRMED failure (replay exit {rc}) {path}: {v['msg'][:800]}\n{err}")
        sys.exit(3)
    if errors:
        for r in errors[:2]:
            print("HARNESS ERROR:", r["msg"])
        sys.exit(2)
    if agg["cases"] == 0:
        print("HARNESS ERROR: no case was run")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
