"""One worker interpreter: a zygote that forks reference answers and runs.

usage: python -m dst.worker <json config>
Prints one JSON object per line: {"type": "violation"|"result"|"harness", ...}.
"""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from . import harness
from .rng import digest, rng


def emit(obj):
    sys.stdout.write(json.dumps(obj) + "\n")
    sys.stdout.flush()


#: how much a process has been asked before the first aged run, by class
AGES = [20, 55, 90, 120, 240, 500, 1000, 31]


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}").PROP


def hangs(cls):
    """Runs that do not end are only ever decided by counting steps."""
    return cls.startswith("stuck:steplimit")


def make_failing(prop, ctx, cls):
    def failing(c):
        out = harness.execute(c, prop.run, limited=hangs(cls))
        v = prop.check(c, out, ctx)
        return v is not None and v.cls == cls

    return failing


def explore(prop, cfg):
    from .db import Db
    from .workload import Gen

    seed, klass, classes = cfg["seed"], cfg["class"], cfg["classes"]
    t_start = time.monotonic()
    spent = 0.0
    stats = {
        "runs": 0, "nontrivial": 0, "ops": 0, "clock": 0, "kinds": {}, "pool": 0,
        "skipped": 0, "phase_runs": {}, "capped": False,
    }
    sigs = set()
    sites = set()
    samples = []
    db = Db()
    t_run = 0.0
    t0 = time.monotonic()
    warmed = False
    ctx = None
    for ph in sorted(prop.phases, key=lambda p: p.warm):
        if ph.warm and not warmed:
            harness.warm_parser()
            warmed = True
        spent += ph.share
        t_end = t_start + cfg["wall"] * min(1.0, spent)
        prop.prepare_zygote(ph)
        harness.freeze()
        if ctx is None or ctx.warm != ph.warm:
            ctx = harness.Ctx(prop)
            ctx.warm = ph.warm
        ctx.db = db
        total = int(cfg["runs"] * ph.share)
        mine = [i for i in range(total) if i % classes == klass]
        if not mine:
            continue
        age = None
        if ph.aged:
            # the pool of the phase before, whose answers are known
            harness.AGED = harness.Aged(prop, db, seed, klass)
            age = rng(seed, prop.id, "ageing", klass)
            old = AGES[klass % len(AGES)]
            todo = []
        else:
            pr = rng(seed, prop.id, "pool", ph.name, klass)
            gen = Gen(db, pr)
            ctx.gen = gen
            todo = pool = prop.make_pool(gen, pr, max(2, int(ph.pool * cfg.get("pool_scale", 1))))
        kept = []
        slow = 0
        for op in todo:
            try:
                prop.establish(ctx, op)
                kept.append(op)
            except harness.TooSlow:
                slow += 1
            except harness.HarnessError as e:
                stats["skipped"] += 1
                print(f"skipped {op}: {str(e)[-300:]}", file=sys.stderr)
            if os.path.exists(cfg["stop"]):
                break
        if todo and len(kept) * 2 < len(pool) - slow and not os.path.exists(cfg["stop"]):
            raise harness.HarnessError(f"only {len(kept)} of {len(pool)} reference answers exist")
        if not ph.aged:
            pool = kept
        stats["pool"] += len(kept)
        for i in mine:
            if os.path.exists(cfg["stop"]):
                break
            if time.monotonic() > t_end and stats["phase_runs"].get(ph.name, 0) >= 3:
                stats["capped"] = True
                break
            r = rng(seed, prop.id, ph.name, i)
            sc = prop.scenario(r, pool, ctx, ph)
            sc["phase"], sc["warm"], sc["index"] = ph.name, ph.warm, i
            if ph.aged:
                old += age.choice([0, 0, 1, 1, 2, 3, 5])
                sc["age"] = {"key": [seed, klass], "n": old}
            t1 = time.monotonic()
            out = harness.execute(sc, prop.run)
            t_run += time.monotonic() - t1
            stats["runs"] += 1
            stats["phase_runs"][ph.name] = stats["phase_runs"].get(ph.name, 0) + 1
            v = prop.check(sc, out, ctx)
            stats["ops"] += prop.ops_done(sc, out)
            stats["clock"] += out.get("clock", 0)
            for k, n in prop.kinds(sc, out).items():
                stats["kinds"][k] = stats["kinds"].get(k, 0) + n
            if prop.nontrivial(sc, out):
                stats["nontrivial"] += 1
                sigs.add(prop.signature(sc, out))
                sites |= prop.sites(sc, out)
                if len(samples) < 2 and len(json.dumps(sc)) < 6000:
                    samples.append(sc)
            if v is not None:
                # Reproduce before believing.
                again = [harness.execute(sc, prop.run, limited=hangs(v.cls)) for _ in range(2)]
                vs = [prop.check(sc, o, ctx) for o in again]
                stable = all(x is not None and x.cls == v.cls for x in vs)
                if prop.known(v, sc):
                    stats.setdefault("known", {}).setdefault(v.cls, 0)
                    stats["known"][v.cls] += 1
                    continue
                small, nruns = sc, 0
                first = True
                try:
                    os.close(os.open(cfg["stop"], os.O_CREAT | os.O_EXCL))
                except FileExistsError:
                    first = False  # another worker already minimises what it found
                if stable and first:
                    small, nruns = harness.shrink(
                        sc, make_failing(prop, ctx, v.cls), cfg.get("shrink_s", 40)
                    )
                out2 = harness.execute(small, prop.run, limited=hangs(v.cls))
                v2 = prop.check(small, out2, ctx) or v
                emit({
                    "type": "violation", "index": i, "phase": ph.name, "class": klass,
                    "scenario": small, "original": {"ops": sum(map(len, sc["threads"])), "plan": len(sc["plan"])},
                    "violation": v2.json(), "stable": stable, "shrink_runs": nruns, "first": first,
                    "hashseed": os.environ.get("PYTHONHASHSEED"), "digest": digest(out2),
                })
                stats["violations"] = 1
                break
        if os.path.exists(cfg["stop"]):
            break
    stats["refs_s"] = time.monotonic() - t0 - t_run
    stats["run_s"] = t_run
    emit({"type": "result", "stats": stats, "sigs": sorted(sigs), "sites": sorted(sites),
          "samples": samples})


def replay(prop, cfg):
    rec = json.load(open(cfg["file"]))
    sc = rec["scenario"]
    if sc.get("warm"):
        harness.warm_parser()
    from .base import Phase

    prop.prepare_zygote(Phase(sc.get("phase"), sc.get("warm"), 0, 1))
    harness.freeze()
    from .db import Db

    ctx = harness.Ctx(prop)
    ctx.db = Db()
    out = harness.execute(sc, prop.run, limited=hangs(rec["violation"]["class"]))
    v = prop.check(sc, out, ctx)
    emit({"type": "replay", "violation": v and v.json(), "digest": digest(out), "out": out})


def trace(prop, cfg):
    """Digests of the first n runs: what the determinism self-test compares."""
    from .db import Db
    from .workload import Gen

    res = []
    db = Db()
    warmed = False
    for ph in sorted(prop.phases, key=lambda p: p.warm):
        if ph.aged:
            harness.AGED = harness.Aged(prop, db, cfg["seed"], cfg["class"])
        if ph.warm and not warmed:
            harness.warm_parser()
            warmed = True
        prop.prepare_zygote(ph)
        harness.freeze()
        ctx = harness.Ctx(prop)
        ctx.db = db
        if not ph.aged:
            pr = rng(cfg["seed"], prop.id, "pool", ph.name, cfg["class"])
            gen = ctx.gen = Gen(db, pr)
            pool = prop.make_pool(gen, pr, max(2, int(ph.pool * cfg.get("pool_scale", 1))))
        kept = []
        for op in pool:
            try:
                prop.establish(ctx, op)
                kept.append(op)
            except (harness.HarnessError, harness.TooSlow):
                pass
        pool = kept
        for i in range(cfg["n"]):
            if i % cfg.get("stride", 1):
                continue
            sc = prop.scenario(rng(cfg["seed"], prop.id, ph.name, i), pool, ctx, ph)
            if ph.aged:
                sc["age"] = {"key": [cfg["seed"], cfg["class"]], "n": 20 + i}
            out = harness.execute(sc, prop.run)
            res.append([ph.name, i, digest(sc), digest(out)])
    emit({"type": "trace", "rows": res})


def member(prop, cfg):
    emit({"type": "member", **prop.member(cfg)})


def main():
    cfg = json.loads(sys.argv[1])
    try:
        harness.setup_interpreter()
        prop = load_prop(cfg["prop"])
        if getattr(prop, "virgin", False) and cfg["mode"] != "member":
            harness.VIRGIN = harness.Virgin(prop)
        if cfg["mode"] == "other":
            from . import moving

            return moving.serve(cfg)
        if prop.needs_db:
            harness.setup_db()
        {"explore": explore, "replay": replay, "trace": trace,
         "member": member}[cfg["mode"]](prop, cfg)
    except BaseException:  # noqa: BLE001
        emit({"type": "harness", "error": traceback.format_exc()[-4000:]})
        sys.exit(3)


if __name__ == "__main__":
    main()
