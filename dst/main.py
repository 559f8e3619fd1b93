"""Driver.

  python -m dst.main check C01 [quick|thorough]
  python -m dst.main replay FILE
  python -m dst.main selftest [C01 ...]      determinism across processes
"""
from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from .rng import derive, digest

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
CLASSES = 8
PY = os.environ.get("VERIF_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
)


def scratch_dir():
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="dst-", dir=base)


def worker_env(hashseed, scratch, extra=None):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "PYTHONPATH": ROOT,
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
        "VERIF_SCRATCH": scratch,
    }
    for k in ("VERIF_REPO", "VERIF_RUN_TIMEOUT"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(extra or {})
    return env


def fixed_addresses():
    """No address-space randomisation in what is started: fewer uncontrolled inputs."""
    try:
        import ctypes

        ctypes.CDLL(None).personality(0x0040000)
    except Exception:  # noqa: BLE001 - only a refinement
        pass


def popen(cfg, env, cwd, flags=()):
    return subprocess.Popen(
        [PY, "-B", *flags, "-m", "dst.worker", json.dumps(cfg)],
        cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        encoding="utf-8", errors="replace", start_new_session=True, preexec_fn=fixed_addresses,
    )


def spawn(cfg, hashseed, scratch, extra=None):
    return popen(cfg, worker_env(hashseed, scratch, extra), scratch)


def collect(procs, deadline):
    """Wait for all workers; returns [(lines, stderr, returncode|None)]."""
    res = [None] * len(procs)

    def wait(i, p):
        try:
            out, err = p.communicate(timeout=max(1, deadline - time.monotonic()))
            res[i] = (out, err, p.returncode)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            res[i] = (out, err, None)

    ts = [threading.Thread(target=wait, args=(i, p)) for i, p in enumerate(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def hashseed_for(seed, klass):
    return derive(seed, "hashseed", klass) % (2**32 - 1) + 1


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == pid]


def write_replay(pid, rec):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{digest(rec['scenario'])}.json")
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1, sort_keys=True)
        fh.write("\n")
    return path


def run_replay(path, scratch, extra=None):
    rec = json.load(open(path))
    p = spawn({"mode": "replay", "prop": rec["property"], "file": os.path.abspath(path)},
              rec["hashseed"], scratch, {**rec.get("env", {}), **(extra or {})})
    (out, err, rc), = collect([p], time.monotonic() + 600)
    for line in out.splitlines():
        o = json.loads(line)
        if o["type"] == "replay":
            return o
    return {"type": "error", "violation": None, "error": (out + err)[-3000:]}


def check(pid, tier):
    from . import worker

    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = worker.load_prop(pid)
    if hasattr(prop, "drive"):
        scratch = scratch_dir()
        try:
            return prop.drive(seed, tier, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    t0 = time.monotonic()
    runs = prop.quick_runs if tier == "quick" else prop.thorough_runs
    wall = prop.quick_wall if tier == "quick" else prop.thorough_wall
    scratch = scratch_dir()
    try:
        stop = os.path.join(scratch, "stop")
        extra = prop.worker_env(scratch) if hasattr(prop, "worker_env") else None
        procs = []
        for k in range(CLASSES):
            cfg = {
                "mode": "explore", "prop": pid, "seed": seed, "class": k, "classes": CLASSES,
                "runs": runs, "wall": wall, "stop": stop, "tier": tier,
                "pool_scale": 1 if tier == "quick" else 3,
            }
            procs.append(spawn(cfg, hashseed_for(seed, k), scratch, extra))
        res = collect(procs, t0 + wall + 420)
        viol, harness_err = [], []
        agg = {"runs": 0, "nontrivial": 0, "ops": 0, "clock": 0, "pool": 0, "skipped": 0}
        kinds, phase_runs, known = {}, {}, {}
        sigs, sites, samples = set(), set(), []
        capped = False
        for k, (out, err, rc) in enumerate(res):
            got = False
            for line in out.splitlines():
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o["type"] == "violation":
                    viol.append(o)
                elif o["type"] == "harness":
                    harness_err.append(f"worker {k}: {o['error']}")
                elif o["type"] == "result":
                    got = True
                    s = o["stats"]
                    for a in agg:
                        agg[a] += s[a]
                    for a, b in s["kinds"].items():
                        kinds[a] = kinds.get(a, 0) + b
                    for a, b in s["phase_runs"].items():
                        phase_runs[a] = phase_runs.get(a, 0) + b
                    for a, b in s.get("known", {}).items():
                        known[a] = known.get(a, 0) + b
                    capped |= s["capped"]
                    sigs.update(o["sigs"])
                    sites.update(o["sites"])
                    samples += o["samples"]
            if not got and rc != 3 and not any(v["class"] == k for v in viol):
                harness_err.append(f"worker {k} gave no result (exit {rc}): {err[-1500:]}")
        path = None
        if viol:
            viol.sort(key=lambda v: (not v["stable"], not v["first"], v["phase"], v["index"]))
            v = viol[0]
            rec = {
                "property": pid, "seed": seed, "hashseed": v["hashseed"], "phase": v["phase"],
                "index": v["index"], "violation": v["violation"], "stable": v["stable"],
                "shrunk_from": v["original"], "digest": v["digest"], "scenario": v["scenario"],
                "env": getattr(prop, "replay_env", lambda: {})(),
            }
            path = write_replay(pid, rec)
            confirmed = False
            for attempt in range(3):
                rr = run_replay(path, scratch, extra)
                if rr.get("violation") and rr["violation"]["class"] == v["violation"]["class"]:
                    confirmed = True
                    break
            rec["confirmed_in_fresh_process"] = confirmed
            rec["replay_attempts"] = attempt + 1
            write_replay(pid, rec)
        wall_s = time.monotonic() - t0
        rate = agg["runs"] / wall_s * 3600
        cov = {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": prop.rule,
            "samples": samples[:3] or [{"note": "no sample short enough"}],
            "runs_by_phase": phase_runs,
            "nontrivial_runs": agg["nontrivial"],
            "runs_per_hour": round(rate),
            "seeds_per_hour": round(rate),
            "simulated_operations": agg["ops"],
            "simulated_clock_ticks": agg["clock"],
            "simulated_time": "logical: one tick per operation boundary, context switch or fault",
            "faults_injected": kinds,
            "distinct_fault_or_switch_sites": len(sites),
            "distinct_interleavings": len(sigs),
            "distinct_measure": "sha256 of (operations per thread, decisions that fired, audit)",
            "pool_operations": agg["pool"],
            "pool_skipped": agg["skipped"],
            "real_components": prop.real,
            "stub_components": prop.stub,
            "wall_capped": capped,
            "workers": CLASSES,
        }
        if hasattr(prop, "extra_coverage"):
            cov.update(prop.extra_coverage(scratch, tier))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": cov, "assumptions": list(prop.assumptions),
            "wall_s": round(wall_s, 2), "violations": 1 if viol else 0,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
        for f in load_known(pid):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        print(f"{pid}: {agg['runs']} runs ({agg['nontrivial']} non-trivial, {len(sigs)} distinct), "
              f"{agg['ops']} operations, {wall_s:.0f}s, faults {kinds}")
        for e in harness_err:
            print("HARNESS:", e, file=sys.stderr)
        if viol:
            print(json.dumps(v["violation"])[:3000])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if harness_err:
            return 2
        floor = getattr(prop, "floor", 24)
        if agg["nontrivial"] < floor:
            print(f"HARNESS: only {agg['nontrivial']} non-trivial runs", file=sys.stderr)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    scratch = scratch_dir()
    try:
        from . import worker

        rec = json.load(open(path))
        prop = worker.load_prop(rec["property"])
        if hasattr(prop, "drive_replay"):
            return prop.drive_replay(rec, path, scratch)
        extra = prop.worker_env(scratch) if hasattr(prop, "worker_env") else None
        rr = run_replay(path, scratch, extra)
        print(json.dumps({k: v for k, v in rr.items() if k != "out"}, indent=1))
        if rr.get("violation"):
            same = rr["digest"] == rec.get("digest")
            print(f"replayed {'exactly' if same else 'with a different history'}")
            print(f"VIOLATION property={rec['property']} replay={path}")
            return 1
        return 0 if rr["type"] == "replay" else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(pids, n=int(os.environ.get("VERIF_SELFTEST_N", "24")), seeds=(1,)):
    """The same (seed, class) in separate interpreters, one alone and one beside
    seven others, must produce the same scenarios and the same histories."""
    from . import worker

    bad = 0
    for pid in pids:
        prop = worker.load_prop(pid)
        if hasattr(prop, "drive"):
            continue
        for seed in seeds:
            scratch = scratch_dir()
            try:
                extra = prop.worker_env(scratch) if hasattr(prop, "worker_env") else None
                def go(stride):
                    ps = [spawn({"mode": "trace", "prop": pid, "seed": seed, "class": k, "n": n,
                                 "stride": stride, "pool_scale": 0.5},
                                hashseed_for(seed, k), scratch, extra) for k in range(4)]
                    outs = []
                    for out, err, rc in collect(ps, time.monotonic() + 900):
                        rows = [json.loads(x) for x in out.splitlines()]
                        rows = [o for o in rows if o["type"] == "trace"]
                        if not rows:
                            print("selftest worker failed", (out + err)[-1500:])
                            outs.append({})
                            continue
                        outs.append({(r[0], r[1]): r[2:] for r in rows[0]["rows"]})
                    return outs
                a, b, c = go(1), go(1), go(7)
                total = same = 0
                for x, y, z in zip(a, b, c):
                    for k, v in x.items():
                        total += 1
                        same += y.get(k) == v and (k not in z or z[k] == v)
                print(f"{pid} seed {seed}: {same}/{total} runs identical in other processes and subsets")
                bad += same != total or not total
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def setup():
    """Everything is interpreted or built per run; check that it can run."""
    scratch = scratch_dir()
    try:
        p = subprocess.run(
            [PY, "-B", "-c", "from dst import harness; harness.setup_interpreter(); harness.setup_db()"],
            cwd=scratch, env=worker_env(1, scratch))
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier))
    if cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    if cmd == "setup":
        sys.exit(setup())
    if cmd == "selftest":
        sys.exit(selftest(sys.argv[2:]))
    sys.exit(f"unknown command {cmd}")


if __name__ == "__main__":
    main()
