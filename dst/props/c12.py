"""C12: the same query answers the same in every process.

Each simulated deployment is a set of interpreters that differ in everything a
process may differ in (hash randomisation, locale, time zone, working
directory, heap layout, order in which the queries are asked).  All of it is
derived from the seed; all members are asked the same queries.
"""
from __future__ import annotations

import asyncio
import importlib.abc
import importlib.machinery
import json
import os
import signal
import sys
import threading
import time

from .. import iofault
from .. import main as drv
from ..rng import derive, digest, rng

LOCALES = [
    {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"LANG": "tr_TR.UTF-8"}, {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}, {},
    {"LC_NUMERIC": "de_DE.UTF-8", "LC_CTYPE": "C.UTF-8"}, {"LANGUAGE": "fr", "LC_ALL": "C.UTF-8"},
]
ZONES = ["UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "XYZ-13:45", "", "Europe/London", "EST5EDT"]

STAMPS = ["2000-01-01T00:00:00Z", "2000-07-01T12:00:00Z", "20000101T103000Z", "2000-01-01 00:00:00", "2000-01-01T00:00:00",
          "2000-01-01 00:00:00 UTC", "2000-01-01 12:34:56.789 -3:30", "2000-07-01 00:00:00 +10", "1970-01-01", "0001-01-01",
          "1582-10-15 00:00", "2000-03-26 02:30:00", "2024-03-10T02:30:00", "1999-12-31T23:59:60", "2000", "-4713-01-01",
          "2000-01-01 00:00 Z", "2000-01-01T00:00:00 EST", "2000-1-1 +1", "19900101"]


def stamp(r):
    """A reference date, usual or not."""
    y = r.choice([str(r.randint(1, 99)), f"{r.randint(0, 99):02d}", str(r.randint(100, 9999)), str(r.randint(1900, 2100)),
                  f"{r.randint(1, 2100):04d}", str(-r.randint(1, 4000))])
    d = r.choice(["-{m}-{d}", "-{m:02d}-{d:02d}", "-{m}-{d}", "-{m}", ""]).format(m=r.randint(1, 12), d=r.randint(1, 28))
    if not d:
        return y
    t = r.choice(["", "", " {h}:{n}", "T{h:02d}:{n:02d}:{s:02d}", " {h:02d}:{n:02d}:{s:02d}.5", " {h}"]).format(
        h=r.randint(0, 23), n=r.randint(0, 59), s=r.randint(0, 59))
    z = r.choice(["", "", " UTC", "Z", " +{h}", " -{h}:30", " GMT", " {h}"]).format(h=r.randint(0, 12)) if t else ""
    return y + d + t + z


#: seconds since 1970, ms per look at the clock, looks between jumps, seconds per jump
CLOCKS = ["", "0:1:0:0", "-86400:1000:0:0", "951782399:250:3:86400", "1700000000:1:5:-7200", "2147483646:600:0:0",
          "4102444799:1:2:31622400", "9000000000:1:0:0", "1111885199:400:0:0", "978307199:3600000:0:0"]


#: where in the life of the process, and of its thread, the questions are asked
WHERE = ["main", "thread", "exit", "handler", "traced", "finaliser", "import", "coroutine", "except"]


def there(where, fn):
    """fn(), called from there."""
    out = []

    def go(*_):
        out.append(fn())

    if where == "thread":
        t = threading.Thread(target=go)
        t.start()
        t.join()
    elif where == "handler":
        signal.signal(signal.SIGUSR1, go)
        os.kill(os.getpid(), signal.SIGUSR1)
        for _ in range(1000):
            pass
    elif where == "traced":
        sys.setprofile(lambda *a: None)
        sys.settrace(lambda *a: None)
        go()
        sys.settrace(None)
        sys.setprofile(None)
    elif where == "finaliser":
        o = type("Owner", (), {"__del__": go})()
        del o
    elif where == "import":
        class Loader(importlib.abc.Loader):
            def exec_module(self, module):
                go()

        spec = importlib.machinery.ModuleSpec("asks_while_imported", Loader())
        importlib._bootstrap._load(spec)
    elif where == "coroutine":
        async def main():
            go()

        asyncio.run(main())
    elif where == "except":
        try:
            raise LookupError("under way")
        except LookupError:
            go()
    else:
        go()
    return out[0]


#: variables that mean something to other programs of the kind
VARS = [
    {}, {"UDUNITS2_XML_PATH": "decoy"}, {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "XDG_CACHE_HOME": "/nonexistent"},
    {"PYTHONUTF8": "1"}, {"UDUNITS2_XML_PATH": "/nonexistent.xml", "DEBUG": "1"},
    {"COLUMNS": "7", "LINES": "3", "NO_COLOR": "1", "TERM": "dumb"},
    {"HOME": "", "USER": "", "LOGNAME": "", "PYTHONWARNINGS": "ignore"}, {"SOURCE_DATE_EPOCH": "0", "CI": "1"},
    {"SYMPY_USE_CACHE": "no"}, {"SYMPY_CACHE_SIZE": "20", "PYTHONINTMAXSTRDIGITS": "640"},
]


def config(seed, wave, k):
    r = rng(seed, "C12", "config", wave, k)
    return {
        "hashseed": derive(seed, "C12", "hashseed", wave, k) % (2**32 - 1) + 1,
        "locale": LOCALES[k % len(LOCALES)],
        "tz": r.choice(ZONES),
        "cwd": r.choice(["scratch", "/", "empty", "deep", "decoy", "decoy"]),
        "junk": r.choice([0, 1000, 50_000]),
        "order": derive(seed, "C12", "order", wave, k),
        "clock": CLOCKS[k] if k < 2 else r.choice(CLOCKS),
        "where": WHERE[k] if k < 3 else r.choice(WHERE),
        "vars": r.choice(VARS),
        "flags": [[], ["-O"], [], ["-OO"], [], [], ["-O"], []][k % 8],
    }


class C12:
    id = "C12"
    needs_db = False
    quick_waves, thorough_waves = 3, 40
    quick_ops, thorough_ops = 420, 900
    rule = (
        "waves of 8 fresh interpreters per seed with different hash seeds, locales, time zones, simulated "
        "wall clocks (which jump), working directories, environment variables, optimisation levels, places to ask from (threads, handlers, finalisers, imports, coroutines, exit handlers), heap layouts and orders of asking, all given one batch of queries (compound, "
        "prefixed, ambiguous between prefixes, failing, conversions, comparisons, private unit systems "
        "with overlapping prefixes); answers and errors (type and message) must be equal. Non-trivial: a query "
        "answered by all members of a wave; distinct: the query."
    )

    # -- the batch, made in the driver
    def batch(self, seed, wave, n):
        from ..db import Db
        from ..workload import Gen

        r = rng(seed, "C12", "batch", wave)
        db = Db()
        gen = Gen(db, r)
        ops = []
        amb = db.ambiguous()
        for q in r.sample(amb, min(len(amb), n // 6)):
            ops.append({"o": "name", "q": q, "w": ["str", "exp"]})
        for q in r.sample(amb, min(len(amb), n // 20)):
            ops.append({"o": "unit", "q": f"{q}/{r.choice(amb)}", "w": ["str", "exp"]})
        for _ in range(n // 3):
            ops.append(gen.op())
        for _ in range(n // 12):
            ops += gen.family()[:4]
        for _ in range(n // 10):
            # several identifiers: their order of resolution is the process's choice
            ids = [gen.ident() for _ in range(r.choice([3, 4, 5]))]
            q = ids[0]
            for x in ids[1:]:
                q += r.choice(["/", " ", "."]) + x
            ops.append({"o": "unit", "q": q, "w": ["str", "exp"]})
        # several reasons to fail: which one is reported?
        bad = ["nosuch", "xyzzy", "kfoo", "foo_bar", "qwerty", "lg", "arcminute", "arcseconds", "kilo", "metermeter"]
        for _ in range(n // 20):
            ids = r.sample(bad, r.choice([2, 2, 3])) + [gen.ident()]
            r.shuffle(ids)
            q = r.choice(["{0} {1} {2}", "{0}({1})", "{0}/{1}.{2}", "lg(re {0} {1})", "({1} {0})^2/{2}", "{0} @ 3 {1}"])
            o = r.random()
            ops.append({"o": "unit", "q": q.format(*ids), "w": ["str", "exp"]} if o < 0.8 else
                       {"o": "compat", "a": ids[0], "b": ids[1]})
        gen.cheap = True
        for _ in range(n // 14):
            ids = [gen.ident() for _ in range(r.choice([2, 3]))]
            q = " ".join(ids)
            ops.append({"o": "unit", "q": q, "w": ["str", "exp", "dim", "flags", "print"]})
        for e, ids in r.sample(gen.usable, min(len(gen.usable), n // 14)):
            ops.append({"o": "unit", "q": f"{r.choice(ids)} {gen.ident()}", "w": ["print"]})
        gen.cheap = False
        for _ in range(n // 8):
            q = r.choice(["days", "s", "hours", "min", "fortnight"]) + r.choice([" since ", " @ ", " from "]) + (
                r.choice(STAMPS) if r.random() < 0.4 else stamp(r))
            ops.append({"o": "unit", "q": q, "w": ["str", "exp", "flags"]})
        for p, syms in db.prefixes:
            for x in [p] + list(syms):
                e, ids = gen.pick()
                ops.append({"o": "name", "q": x + r.choice(ids), "w": ["str", "exp"]})
        return ops

    worlds_per_wave = 6

    def worlds(self, seed, wave):
        """Private systems whose prefixes overlap, and what to ask them."""
        from . import registry
        from .. import model

        out = []
        for i in range(self.worlds_per_wave):
            r = rng(seed, "C12", "world", wave, i)
            v = registry.Vocabulary(r)
            units = [registry.make_def(r, v, registry.fresh_names(r, v), 0) for _ in range(3)]
            names = [n for u in units for _, n in model.item_names(u)]
            stems = r.sample(["d", "da", "dak", "a", "ak", "k", "m", "mi", "micro", "i"], 6)
            prefixes = []
            for j in range(0, 6, 2):
                prefixes.append({"t": "prefix", "name": stems[j] + "x", "value": str(v.k()),
                                 "symbols": [stems[j], stems[j + 1]]})
            world = {"systems": {"A": registry.base_items() + prefixes + units}}
            ops = []
            for n in names:
                for s in stems:
                    ops.append({"o": "name", "s": "A", "q": s + n, "w": ["str", "exp"]})
            a = r.sample(names, min(3, len(names)))
            ops.append({"o": "unit", "s": "A", "q": " ".join(a), "w": ["str", "exp"]})
            ops.append({"o": "unit", "s": "A", "q": " ".join(a + ["nosuch"]), "w": ["str", "exp"]})
            out.append([world, ops])
        return out

    # -- one interpreter
    def member(self, cfg):
        """Runs inside dst.worker."""
        from .. import harness
        from ..world import World

        data = json.load(open(cfg["file"]))
        junk = [object() for _ in range(cfg["config"]["junk"])]
        junk2 = [{} for _ in range(cfg["config"]["junk"] // 10)]
        del junk[::2]
        harness.setup_db()
        harness.freeze()
        t_end = time.monotonic() + cfg["budget"]
        rows = {}
        ops = list(enumerate(data["ops"]))
        if cfg.get("only") is not None:
            ops = [ops[i] for i in cfg["only"]]
        else:
            rng(cfg["config"]["order"]).shuffle(ops)
            # the slow tail must not be the same queries everywhere cut short
        todo = [ops[i:i + 24] for i in range(0, len(ops), 24)]

        where = cfg["config"].get("where", "main")

        def go(part):
            return there(where, lambda: ask(part))

        def ask(part):
            W = World()
            out = []
            for i, op in part:
                W.prepare(op)
                out.append([i, W.execute(op)])
            return out

        cut = 0
        for part in todo:
            if time.monotonic() > t_end:
                cut += len(part)
                continue
            kind, val = harness.fork_call(lambda p=part: go(p), 120, where == "exit")
            if kind != "ok":
                # one by one, so that only the culprit is without an answer
                for x in part:
                    kind, val = harness.fork_call(lambda p=[x]: go(p), 60, where == "exit")
                    rows[x[0]] = val[0][1] if kind == "ok" else ["dead", kind, str(val)[-600:]]
                continue
            for i, got in val:
                rows[i] = got
        for j, (world, wops) in enumerate(data["worlds"]):
            def gow():
                W = World(world)
                return [W.execute(op) for op in wops]
            kind, val = harness.fork_call(lambda g=gow: there(where, g), 60, where == "exit")
            rows[f"w{j}"] = val if kind == "ok" else ["dead", kind]
        return {"rows": rows, "cut": cut, "junk": len(junk) + len(junk2)}

    def spawn(self, cfg, conf, scratch):
        cwd = {"scratch": scratch, "/": "/", "empty": os.path.join(scratch, "empty"),
               "deep": os.path.join(scratch, "d e\u00e9p", "pyudunits2"),
               "decoy": os.path.join(scratch, "decoy")}[conf["cwd"]]
        os.makedirs(cwd, exist_ok=True)
        if conf["cwd"] == "decoy":
            # data files called like the package's own, with other contents
            from .. import loader

            for d, _, names in os.walk(os.path.join(loader.REPO, "pyudunits2")):
                for f in names:
                    if not f.endswith((".py", ".pyc", ".so")) and not os.path.exists(os.path.join(cwd, f)):
                        with open(os.path.join(cwd, f), "w") as fh:
                            fh.write("<unit-system/>\n")
        env = drv.worker_env(conf["hashseed"], scratch)
        env.pop("LC_ALL")
        env.update(conf["locale"])
        env["TZ"] = conf["tz"]
        env.update(conf.get("vars", {}))
        if env.get("UDUNITS2_XML_PATH") == "decoy":
            env["UDUNITS2_XML_PATH"] = path = os.path.join(scratch, "other.xml")
            with open(path, "w") as fh:
                fh.write("<unit-system/>\n")
        if conf.get("clock"):
            env["DST_CLOCK"] = conf["clock"]
            env["LD_PRELOAD"] = iofault.build(scratch, iofault.CLOCK)
        return drv.popen({"mode": "member", "prop": "C12", "config": conf, **cfg}, env, cwd, conf.get("flags", ()))

    def wave(self, path, confs, scratch, budget, only=None):
        procs = [self.spawn({"file": path, "budget": budget, "only": only}, c, scratch) for c in confs]
        outs = []
        for out, err, rc in drv.collect(procs, time.monotonic() + budget + 240):
            got = None
            for line in out.splitlines():
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o["type"] == "member":
                    got = o
                elif o["type"] == "harness":
                    err = o["error"]
            outs.append(got or {"error": (err or "")[-1500:], "rows": {}})
        return outs

    @staticmethod
    def same(a, b):
        return a == b

    def compare(self, outs, data):
        """First query (in batch order) that two members answer differently."""
        base = outs[0]["rows"]
        n = 0
        agreed = []
        for i, op in enumerate(data["ops"]):
            k = str(i)
            got = [(m, o["rows"][k]) for m, o in enumerate(outs) if k in o["rows"]]
            if len(got) < 2:
                continue
            n += 1
            for m, x in got[1:]:
                if not self.same(got[0][1], x):
                    return {"op": op, "index": i, "members": [got[0][0], m], "answers": [got[0][1], x]}, agreed
            agreed.append(digest(op))
        for j, (world, wops) in enumerate(data["worlds"]):
            rows = [(m, o["rows"].get(f"w{j}")) for m, o in enumerate(outs)]
            rows = [(m, x) for m, x in rows if x and x[0] != "dead"]
            for q, op in enumerate(wops):
                for m, x in rows[1:]:
                    if not self.same(rows[0][1][q], x[q]):
                        return {"op": op, "index": f"w{j}", "members": [rows[0][0], m],
                                "answers": [rows[0][1][q], x[q]], "world": world}, agreed
                agreed.append(digest([world, op]))
        return None, agreed

    def drive(self, seed, tier, scratch):
        t0 = time.monotonic()
        waves = self.quick_waves if tier == "quick" else self.thorough_waves
        n = self.quick_ops if tier == "quick" else self.thorough_ops
        wall = 60 if tier == "quick" else 700
        distinct, members, answers, errors, cut = set(), 0, 0, 0, 0
        bad = None
        harness_err = []
        for w in range(waves):
            if w and time.monotonic() - t0 > wall:
                break
            data = {"ops": self.batch(seed, w, n), "worlds": self.worlds(seed, w)}
            path = os.path.join(scratch, f"wave{w}.json")
            json.dump(data, open(path, "w"))
            confs = [config(seed, w, k) for k in range(drv.CLASSES)]
            outs = self.wave(path, confs, scratch, 40 if tier == "quick" else 120)
            for c, o in zip(confs, outs):
                if "error" in o:
                    harness_err.append(f"wave {w} {c}: {o['error']}")
                members += 1
                answers += len(o["rows"])
                cut += o.get("cut", 0)
                errors += sum(1 for x in o["rows"].values() if x and x[0] == "err")
            bad, agreed = self.compare(outs, data)
            distinct.update(agreed)
            if bad:
                rec = self.record(seed, w, bad, confs, data, scratch)
                path = drv.write_replay(self.id, rec)
                break
        wall_s = time.monotonic() - t0
        ev = {
            "property": self.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": answers, "distinct_nontrivial": len(distinct), "rule": self.rule,
                "samples": [config(seed, 0, 0), config(seed, 0, 1), data["ops"][0]],
                "interpreters": members, "simulated_runs": members,
                "runs_per_hour": round(members / wall_s * 3600),
                "seeds_per_hour": round(members / wall_s * 3600),
                "simulated_time": "wall clocks between 1969 and 2255 advancing by 1 ms to 1 h per look, with jumps of -2 h to +1 year",
                "answers_that_were_errors": errors, "answers_not_reached_in_time": cut,
                "faults_injected": {"hash seeds": members, "locales": len(LOCALES), "time zones": len(ZONES),
                                    "simulated clocks (most of them jump or stand decades off)": len(CLOCKS) - 1,
                                    "optimisation levels": 3, "places to ask from": len(WHERE),
                                    "working directories": 4, "orders of asking": members},
                "distinct_interleavings": members,
                "distinct_measure": "queries answered by all members of a wave",
                "real_components": ["everything: fresh interpreters running the package, sympy, lxml"],
                "stub_components": ["nothing"],
            },
            "assumptions": ["heap layout is varied but not controlled beyond what is allocated before loading"],
            "wall_s": round(wall_s, 2), "violations": 1 if bad else 0,
        }
        os.makedirs(drv.EVIDENCE, exist_ok=True)
        with open(os.path.join(drv.EVIDENCE, f"{self.id}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
        for f in drv.load_known(self.id):
            print(f"KNOWN-FINDING: property={self.id} {f['what']}")
        print(f"C12: {members} interpreters, {answers} answers, {len(distinct)} distinct queries agreed, {wall_s:.0f}s")
        for e in harness_err:
            import sys

            print("HARNESS:", e, file=sys.stderr)
        if bad:
            print(json.dumps(bad)[:3000])
            print(f"VIOLATION property={self.id} replay={path}")
            return 1
        if harness_err or len(distinct) < 100:
            return 2
        return 0

    def record(self, seed, wave, bad, confs, data, scratch):
        """The two members, and the fewest queries which still tell them apart."""
        pair = [confs[m] for m in bad["members"]]
        if isinstance(bad["index"], str):
            small = {"ops": [], "worlds": [[bad["world"], [bad["op"]]]]}
        else:
            small = {"ops": [bad["op"]], "worlds": []}
        sc = {"configs": pair, "data": small, "only": None}
        if not self.reproduces(sc, scratch):
            sc = {"configs": pair, "data": data, "only": None}
        return {"property": self.id, "seed": seed, "phase": f"wave {wave}", "violation": {
            "class": "process-dependent-answer", "detail": bad}, "scenario": sc, "hashseed": 0}

    def reproduces(self, sc, scratch):
        path = os.path.join(scratch, "replay.json")
        json.dump(sc["data"], open(path, "w"))
        outs = self.wave(path, sc["configs"], scratch, 300)
        return self.compare(outs, sc["data"])[0]

    def drive_replay(self, rec, path, scratch):
        bad = self.reproduces(rec["scenario"], scratch)
        if bad:
            print(json.dumps(bad, indent=1)[:3000])
            print(f"VIOLATION property={self.id} replay={path}")
            return 1
        print("the members agree")
        return 0


PROP = C12()
