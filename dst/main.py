"""
Command line of the simulator.

  python -m dst.main check P01 --tier quick     run a property's check
  python -m dst.main replay FILE                run one replay file
  python -m dst.main worker ...                 (internal) one bucket of episodes
"""

from __future__ import annotations

import argparse
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from dst import core
from dst.core import Cov, NoProgress, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUCKETS = 8
PY = sys.executable


def load_prop(pid: str):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def hash_seed(bucket: int) -> str:
    return str(1000 + 7 * bucket)


def child_env(bucket: int) -> dict:
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hash_seed(bucket)
    env["PYTHONPATH"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["DST_BUCKET"] = str(bucket)
    for k, v in {
        "MPLBACKEND": "Agg",
        "QT_QPA_PLATFORM": "offscreen",
        "QT_API": "pyqt6",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
    }.items():
        env[k] = v
    return env


# --------------------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------------------
def _arm(prop) -> None:
    """CPU-time backstop of an episode (deterministic step budgets come first)."""
    cpu = getattr(prop, "CPU_LIMIT", 60)
    signal.setitimer(signal.ITIMER_PROF, cpu)


def _disarm() -> None:
    signal.setitimer(signal.ITIMER_PROF, 0)


def _on_prof(signum, frame):
    raise NoProgress("CPU budget of the episode ran out")


def guarded(prop, trace: dict, cov: Cov) -> Violation | None:
    _arm(prop)
    try:
        return core.run_trace(prop, trace, cov)
    except NoProgress as e:
        return Violation("no-progress", f"{e}", "no-progress")
    finally:
        _disarm()


def worker(args) -> int:
    from dst import boot

    boot.boot()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    prop = load_prop(args.pid)
    signal.signal(signal.SIGPROF, _on_prof)
    cov = Cov()
    out = open(args.out, "w")
    todo = json.loads(args.indices)
    violations = 0
    known = known_findings(args.pid)
    samples = 0
    kinds: Counter = Counter()
    t0 = time.monotonic()
    if hasattr(prop, "setup"):
        prop.setup()
    try:
        for i in todo:
            seed = core.episode_seed(args.seed, args.pid, i)
            trace = core.generate(prop, seed, i, args.tier)
            try:
                v = guarded(prop, trace, cov)
            except core.InvalidTrace:
                cov.probe("invalid-trace")
                v = None
            except Exception:
                import traceback

                cov.log("harness-error")
                out.write(json.dumps({
                    "i": i, "digest": cov.digest(),
                    "harness_error": traceback.format_exc()[-2500:]}) + "\n")
                out.flush()
                continue
            cov.log("verdict", v)
            rec = {"i": i, "digest": cov.digest()}
            if samples < 1:
                rec["sample"] = trace
                samples += 1
            if v is not None:
                kinds[(v.kind, v.key)] += 1
                if kinds[(v.kind, v.key)] <= 2:
                    rec["violation"] = {"kind": v.kind, "detail": v.detail, "key": v.key}
                    rec["trace"] = trace
                if match_known(known, {"kind": v.kind, "key": v.key}) is None:
                    violations += 1
            out.write(json.dumps(rec) + "\n")
            out.flush()
            if violations >= args.max_violations:
                break
    finally:
        if hasattr(prop, "teardown"):
            prop.teardown()
    out.write(
        json.dumps(
            {
                "done": True,
                "evaluations": cov.evaluations,
                "faults": cov.faults,
                "probes": cov.probes,
                "states": sorted(cov.states),
                "nontrivial": sorted(cov.nontrivial),
                "steps": cov.steps,
                "sim_time": cov.sim_time,
                "wall": time.monotonic() - t0,
            }
        )
        + "\n"
    )
    out.close()
    return 0


def run_one(args) -> int:
    """(internal) run, and optionally minimise, one trace from a file, in this process."""
    from dst import boot

    boot.boot()
    with open(args.file) as f:
        data = json.load(f)
    prop = load_prop(data["property"])
    signal.signal(signal.SIGPROF, _on_prof)
    cov = Cov()
    if hasattr(prop, "setup"):
        prop.setup()
    try:
        cov.keep = True
        trace = data["trace"]
        v = guarded(prop, trace, cov)
        cov.log("verdict", v)
        res = {
            "violation": None
            if v is None
            else {"kind": v.kind, "detail": v.detail, "key": v.key},
            "digest": cov.digest(),
            "log": cov.tail[-400:],
            "faults": cov.faults,
        }
        if args.minimise and v is not None:
            cov.keep = False
            budget = getattr(prop, "SHRINK_BUDGET", 400)
            best, bv, tried = core.minimise(
                prop, trace, v, cov, budget, deadline=args.deadline, run=guarded
            )
            cov.keep = True
            v2 = guarded(prop, best, cov)
            cov.log("verdict", v2)
            res.update(
                {
                    "trace": best,
                    "tried": tried,
                    "violation": {"kind": bv.kind, "detail": bv.detail, "key": bv.key},
                    "digest": cov.digest(),
                    "log": cov.tail[-400:],
                }
            )
    finally:
        if hasattr(prop, "teardown"):
            prop.teardown()
    with open(args.out, "w") as f:
        json.dump(res, f)
    return 0


def spawn_one(data: dict, bucket: int, minimise: bool, deadline: float, tmp: str, tag: str):
    src = os.path.join(tmp, f"one-{tag}.in.json")
    dst = os.path.join(tmp, f"one-{tag}.out.json")
    with open(src, "w") as f:
        json.dump(data, f)
    cmd = [PY, "-m", "dst.main", "one", src, dst, "--deadline", str(deadline)]
    if minimise:
        cmd.append("--minimise")
    try:
        p = subprocess.run(
            cmd, env=child_env(bucket), cwd=tmp, capture_output=True, text=True,
            timeout=deadline + 120,
        )
    except subprocess.TimeoutExpired:
        return {"error": "time budget ran out"}
    if p.returncode != 0 or not os.path.exists(dst):
        return {"error": p.stderr[-3000:]}
    with open(dst) as f:
        return json.load(f)


# --------------------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------------------
def known_findings(pid: str) -> list[dict]:
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return [k for k in data["open"] if k["property"] == pid]


def match_known(known: list[dict], v: dict) -> dict | None:
    for k in known:
        if k["kind"] == v["kind"] and k["key"] == v["key"]:
            return k
    return None


# --------------------------------------------------------------------------------------
# Check
# --------------------------------------------------------------------------------------
def check(args) -> int:
    import shutil
    import tempfile

    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = args.pid
    prop = load_prop(pid)
    tier = args.tier
    n = args.episodes or prop.EPISODES[tier]
    print(f"[{pid}] VERIF_SEED={seed} tier={tier} episodes={n}", flush=True)
    base = os.environ.get("DST_TMP") or tempfile.gettempdir()
    tmp = tempfile.mkdtemp(prefix=f"dst-{pid}-", dir=base)
    try:
        return _check(args, prop, pid, seed, tier, n, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(args, prop, pid, seed, tier, n, tmp, t0) -> int:
    known = known_findings(pid)
    hard = getattr(prop, "HARD_WALL", {"quick": 780, "thorough": 6 * 3600})[tier]

    def launch(bucket, indices, tag):
        out = os.path.join(tmp, f"w{tag}.jsonl")
        wd = os.path.join(tmp, f"d{tag}")
        os.makedirs(wd, exist_ok=True)
        cmd = [PY, "-m", "dst.main", "worker", pid, "--tier", tier, "--seed", str(seed),
               "--indices", json.dumps(indices), "--out", out,
               "--max-violations", str(args.max_violations)]
        env = child_env(bucket)
        env["TMPDIR"] = wd
        try:
            p = subprocess.run(cmd, env=env, cwd=wd, capture_output=True, text=True,
                               timeout=max(1, hard - (time.monotonic() - t0)))
            rc, err = p.returncode, p.stderr[-3000:]
        except subprocess.TimeoutExpired:
            rc, err = -1000, "wall budget of the check ran out"
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except json.JSONDecodeError:
                        pass
        return rc, err, recs

    buckets = [[i for i in range(n) if i % BUCKETS == b] for b in range(BUCKETS)]
    jobs = max(1, min(BUCKETS, os.cpu_count() or 1))
    with ThreadPoolExecutor(jobs) as ex:
        results = list(
            ex.map(lambda b: launch(b, buckets[b], f"{b}"), range(BUCKETS))
        )

    harness_errors = []
    tot = {"evaluations": 0, "steps": 0, "sim_time": 0}
    faults: Counter = Counter()
    probes: Counter = Counter()
    states: set = set()
    nontrivial: set = set()
    digests: dict[int, str] = {}
    samples = []
    viols = []
    for b, (rc, err, recs) in enumerate(results):
        done = False
        for r in recs:
            if r.get("done"):
                done = True
                for k in tot:
                    tot[k] += r[k]
                faults.update(r["faults"])
                probes.update(r["probes"])
                states.update(r["states"])
                nontrivial.update(r["nontrivial"])
            else:
                digests[r["i"]] = r["digest"]
                if "harness_error" in r:
                    harness_errors.append(f"episode {r['i']}: {r['harness_error']}")
                if "sample" in r and len(samples) < 3:
                    samples.append(r["sample"])
                if "violation" in r:
                    viols.append((r["i"], b, r["violation"], r["trace"]))
        if not done or rc != 0:
            harness_errors.append(f"worker {b}: rc={rc}: {err}")

    if probes["invalid-trace"] > 0.2 * tot["evaluations"]:
        harness_errors.append("too many invalid traces")

    # Determinism: the same episodes again, in other processes and another grouping.
    redo = {"compared": 0, "mismatches": 0, "indices": []}
    if not harness_errors:
        k = getattr(prop, "REDO", {"quick": 6, "thorough": 20})[tier]

        def again(b):
            idx = [i for i in buckets[b] if i in digests][-k:]
            if not idx:
                return []
            rc, err, recs = launch(b, list(reversed(idx)), f"r{b}")
            return [(r["i"], r["digest"]) for r in recs if "i" in r]

        with ThreadPoolExecutor(jobs) as ex:
            for pairs in ex.map(again, range(BUCKETS)):
                for i, d in pairs:
                    redo["compared"] += 1
                    if digests[i] != d:
                        redo["mismatches"] += 1
                        redo["indices"].append(i)

    # Listed findings: show each one on its own recorded history.
    known_lines = []
    unlisted = []
    for k in known:
        with open(os.path.join(VERIF, k["trace"])) as f:
            rep = json.load(f)
        got = spawn_one(rep, rep.get("bucket", 0), False, 60, tmp, "k" + k["id"])
        v = got.get("violation")
        if v is not None and match_known([k], v):
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        elif v is not None:
            unlisted.append((-1, rep.get("bucket", 0), v, rep["trace"]))
    for i, b, v, trace in sorted(viols, key=lambda x: x[0]):
        if match_known(known, v) is None:
            unlisted.append((i, b, v, trace))

    for line in known_lines:
        print(line, flush=True)
    if args.verbose:
        for k, c in Counter((v["kind"], v["key"]) for _, _, v, _ in unlisted).most_common():
            print("  seen", k, c)

    reported = []
    seen = set()
    for i, b, v, trace in unlisted:
        if (v["kind"], v["key"]) in seen or len(reported) >= args.max_report:
            continue
        seen.add((v["kind"], v["key"]))
        data = {"property": pid, "seed": seed, "episode": i, "bucket": b,
                "pythonhashseed": hash_seed(b), "violation": v, "trace": trace}
        left = hard - (time.monotonic() - t0)
        got = spawn_one(data, b, left > 90, min(60.0, max(5.0, left - 60)), tmp, f"m{i}")
        if got.get("violation") and "trace" in got:
            # The minimised file must fail the same way in a fresh process.
            small = dict(data, trace=got["trace"], violation=got["violation"],
                         digest=got["digest"], log=got["log"], shrink_tries=got["tried"],
                         original_episode_trace=trace)
            again_ = spawn_one(small, b, False, 60, tmp, f"v{i}")
            if again_.get("violation") and again_["violation"]["kind"] == v["kind"]:
                data = small
                data["replay_digest_equal"] = again_["digest"] == got["digest"]
        else:
            data["note"] = f"fresh process: {got.get('error') or got.get('violation')}"
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(
            VERIF, "replays", f"{pid}-{core.hash_key((v['kind'], v['key'])):016x}.json"
        )
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        reported.append((data["violation"], path))

    wall = time.monotonic() - t0
    write_evidence(prop, pid, seed, tier, n, tot, faults, probes, states, nontrivial,
                   samples, redo, len(reported), known_lines, wall, harness_errors)
    print(
        f"[{pid}] runs={tot['evaluations']} distinct={len(nontrivial)} states={len(states)} "
        f"steps={tot['steps']} faults={dict(faults)} "
        f"redo={redo['compared']}/{redo['mismatches']} wall={wall:.1f}s",
        flush=True,
    )
    if args.verbose:
        print("probes", dict(sorted(probes.items())))
    for v, path in reported:
        print(f"  {v['kind']} [{v['key']}]: {v['detail']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    for e in harness_errors[:5]:
        print("HARNESS-ERROR", e, file=sys.stderr)
    if reported:
        return 1
    if harness_errors:
        return 2
    if redo["mismatches"]:
        print(f"NOTE determinism: episodes {redo['indices']} gave another event log")
    return 0


def write_evidence(prop, pid, seed, tier, n, tot, faults, probes, states, nontrivial,
                   samples, redo, nviol, known_lines, wall, harness_errors) -> None:
    cov = {
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(nontrivial),
        "rule": prop.RULE,
        "samples": [_clip(s) for s in samples] or ["none"],
        "simulated_runs": tot["evaluations"],
        "seeds_per_hour": int(tot["evaluations"] / max(wall, 1e-9) * 3600),
        "simulated_steps": tot["steps"],
        "simulated_time": tot["sim_time"],
        "simulated_time_unit": getattr(prop, "TIME_UNIT", "clock cycles or iterations"),
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_states": len(states),
        "state_measure": getattr(prop, "STATE_MEASURE", "hash of the observable state after each step"),
        "real_components": prop.REAL,
        "stubbed_components": prop.STUB,
        "determinism_recheck": redo,
        "known_findings_shown": known_lines,
        "harness_errors": harness_errors,
        "planned_runs": n,
    }
    ev = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(
            {
                "property": pid,
                "tier": tier,
                "seed": seed,
                "level": getattr(prop, "LEVEL", "exploration"),
                "coverage": cov,
                "assumptions": prop.ASSUMPTIONS,
                "wall_s": round(wall, 2),
                "violations": nviol,
            },
            f,
            indent=1,
        )


def _clip(s):
    t = json.dumps(s)
    return s if len(t) < 6000 else t[:6000] + "..."


def replay(args) -> int:
    import shutil
    import tempfile

    with open(args.file) as f:
        data = json.load(f)
    tmp = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        got = spawn_one(data, data.get("bucket", 0), False, 60, tmp, "replay")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if got.get("error"):
        print("HARNESS-ERROR", got["error"], file=sys.stderr)
        return 2
    for line in got["log"]:
        print(line)
    v = got["violation"]
    if v is None:
        print("no violation")
        return 0
    print(f"{v['kind']} [{v['key']}]: {v['detail']}")
    if data.get("digest"):
        print("event log", "identical" if data["digest"] == got["digest"] else "DIFFERS")
    print(f"VIOLATION property={data['property']} replay={args.file}")
    return 1


def main() -> int:
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--tier", default=None)
    c.add_argument("--episodes", type=int, default=0)
    c.add_argument("--max-violations", type=int, default=40)
    c.add_argument("--max-report", type=int, default=3)
    c.add_argument("--verbose", "-v", action="store_true")
    w = sub.add_parser("worker")
    w.add_argument("pid")
    w.add_argument("--tier")
    w.add_argument("--seed", type=int)
    w.add_argument("--indices")
    w.add_argument("--out")
    w.add_argument("--max-violations", type=int, default=40)
    o = sub.add_parser("one")
    o.add_argument("file")
    o.add_argument("out")
    o.add_argument("--minimise", action="store_true")
    o.add_argument("--deadline", type=float, default=60)
    r = sub.add_parser("replay")
    r.add_argument("file")
    args = ap.parse_args()
    if args.cmd == "check":
        args.tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
        return check(args)
    return {"worker": worker, "one": run_one, "replay": replay}[args.cmd](args)


if __name__ == "__main__":
    sys.exit(main())
