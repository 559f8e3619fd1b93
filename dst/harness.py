"""Zygote, isolated runs, reference answers, shrinking.

A worker interpreter ("zygote") imports the package once, loads the shipped
database once and never asks it anything.  Every simulated run, and every
reference answer, is a fork of that pristine state.
"""
from __future__ import annotations

import atexit
import ctypes
import gc
import json
import os
import resource
import select
import signal
import time
import traceback

from . import sim as _sim
from . import loader
from .rng import digest

RUN_TIMEOUT = float(os.environ.get("VERIF_RUN_TIMEOUT", "25"))
STEP_LIMIT = 3_000_000
REF_LIMIT = 6_000_000
#: address space one run may use: a run-away run must not take the box down
MEM = 3 << 30


class HarnessError(Exception):
    pass


class TooSlow(Exception):
    """A pool member that costs more than it can show."""


def key(op):
    return json.dumps(op, sort_keys=True)


def fork_call(fn, timeout=RUN_TIMEOUT, at_exit=False):
    """Run fn() in a fork; returns ("ok", value) | ("harness", tb) |
    ("crash", signal) | ("timeout", None).  *at_exit*: from an exit handler of
    an interpreter that is shutting down."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        def answer():
            code = 1
            try:
                try:
                    out = ["ok", fn()]
                except BaseException:  # noqa: BLE001
                    out = ["harness", traceback.format_exc()]
                data = json.dumps(out).encode()
                view = memoryview(data)
                while view:
                    n = os.write(w, view)
                    view = view[n:]
                code = 0
            finally:
                os._exit(code)

        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            if at_exit:
                atexit.register(answer)
                ctypes.pythonapi.Py_Exit(1)
            answer()
        finally:
            os._exit(1)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
            if not ready:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        if timed_out:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("timeout", None)
    if os.WIFSIGNALED(status):
        return ("crash", os.WTERMSIG(status))
    try:
        kind, value = json.loads(b"".join(chunks))
    except ValueError:
        return ("crash", "no answer")
    return (kind, value)


def setup_interpreter():
    """Everything that must happen before the package is imported."""
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    _sim.install()
    loader.install()
    import logging

    logging.disable(logging.CRITICAL)
    import sympy
    import sympy.core.random as scr
    import numpy  # noqa: F401

    scr.seed(12345)
    # Warm the external engine with expressions of its own, so that what is
    # left to vary is the package.
    x, y = sympy.symbols("x y", real=True)
    value, to = sympy.symbols("value value_transformed_to_base_unit_scale")
    sympy.solve(sympy.log(to) / sympy.log(10) - value, to)
    sympy.solve(sympy.log(to * 3.5) - value, to)
    sympy.solve(to * 2 - value, to)
    sympy.lambdify(value, value * 1.8 + 32)(3.0)
    sympy.expand(sympy.simplify(x * 3 - y * 2), trig=False)
    loader.import_all()


def setup_db():
    from pyudunits2 import UnitSystem
    from .world import World

    World.DB = UnitSystem.from_udunits2_xml()


WARM = [
    "m", "km", "meters/second", "kg m2 s-2", "m^-2", "5 m", "1e-3 kg", "lg(re m)",
    "ln(re 1 mW)", "days since 2000-01-01", "degC @ 273.15", "(m/s)^2", "m.s-1",
    "m per s", "m*s", "m·s", "hours since 1970-01-01T00:00:00 UTC", "2.5 m/60",
    "lb(re 3 Pa)", "s @ 2000", "K from 2", "m²", "0.1 lg(re 1 mW)", "m/s/kg",
    "(m s)/(kg K)", "3.5", "1e3", "-2 m", "minutes since 1990-1-1 10:20",
]


def warm_parser():
    from pyudunits2._grammar import parse

    for s in WARM + ["m^", "((m)", "$", "m//s"]:
        try:
            parse(s)
        except SyntaxError:
            pass


def freeze():
    gc.collect()
    gc.disable()
    gc.freeze()


# ---------------------------------------------------------------- scenarios
def run_scenario(sc, limit=None):
    """One simulated run.  Called in a fork of the pristine state."""
    from .world import World

    W = World(sc.get("world"))
    for ops in sc["threads"]:
        for op in ops:
            W.prepare(op)
    for op in sc.get("audit", ()):
        W.prepare(op)
    for d in sc["plan"]:
        if d["act"][0] == "nest":
            W.prepare(d["act"][1])
    for op in sc.get("before", ()):
        W.execute(op)
    s = _sim.Sim(lambda t, i, op: W.execute(op), sc["threads"], sc["plan"], limit=limit)
    s.run(sc.get("first", 0), sc.get("main"))
    out = {
        "hist": s.history,
        "fired": s.fired,
        "nested": s.nested,
        "dead": s.dead,
        "clock": s.clock,
    }
    if not s.dead:
        if limit is None:
            out["audit"] = [W.execute(op) for op in sc.get("audit", ())]
        else:
            a = _sim.Sim(lambda t, i, op: W.execute(op), [sc.get("audit", ())], [], limit=limit)
            a.run()
            out["dead"] = a.dead
            out["audit"] = [h[4] for h in a.history]
    return out


def run_reference(op, world=None, prof=True):
    """What the op answers alone, in a process that did nothing else."""
    from .world import World

    W = World(world)
    W.prepare(op)
    if not prof:
        return W.execute(op), {}, 0, 0
    return _sim.profile(lambda: W.execute(op), limit=REF_LIMIT)


class Virgin:
    """A process set aside before the database was ever loaded: it forks the
    runs in which the first load of a process is part of the run."""

    def __init__(self, prop):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(w1)
                os.close(r2)
                self.serve(prop, os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.to, self.back = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    @staticmethod
    def serve(prop, fin, fout):
        warm_parser()
        prop.prepare_zygote(None)
        freeze()
        for line in fin:
            sc, limit, timeout = json.loads(line)
            res = fork_call(lambda: prop.run(sc) if limit is None else prop.run(sc, limit), timeout)
            fout.write(json.dumps(res).encode() + b"\n")
            fout.flush()

    def call(self, sc, limit, timeout):
        self.to.write(json.dumps([sc, limit, timeout]).encode() + b"\n")
        self.to.flush()
        line = self.back.readline()
        if not line:
            raise HarnessError("the process set aside is gone")
        kind, val = json.loads(line)
        return kind, val


VIRGIN = None


class Aged(Virgin):
    """A process that has been asked a great many things: what it answers must
    not depend on that.  It ages by one question at a time; question k is a
    function of (seed, property, class, k)."""

    def __init__(self, prop, db, seed, klass):
        self.prop, self.n, self.key, self.gen = prop, 0, [seed, klass], None
        self.db = db
        super().__init__(prop)

    def start(self):
        from .workload import Gen
        from .world import World

        self.gen = Gen(self.db, None)
        self.W = World()

    def age(self, n):
        from .rng import rng

        if self.gen is None:
            self.start()
        while self.n < n:
            self.n += 1
            self.gen.r = rng(self.key[0], self.prop.id, "age", self.key[1], self.n)
            self.W.execute(self.prop.age_op(self.gen, self.n))

    def serve(self, prop, fin, fout):
        for line in fin:
            sc, limit, timeout = json.loads(line)
            if sc["age"]["n"] > self.n:
                self.age(sc["age"]["n"])
                freeze()
            res = fork_call(lambda: prop.run(sc) if limit is None else prop.run(sc, limit), timeout)
            fout.write(json.dumps(res).encode() + b"\n")
            fout.flush()

    def call(self, sc, limit, timeout):
        if sc["age"]["key"] != self.key or sc["age"]["n"] < self.n:
            return call_aged(self.prop, self.db, sc, limit, timeout)
        self.n = sc["age"]["n"]
        return super().call(sc, limit, timeout)


def call_aged(prop, db, sc, limit, timeout):
    """The same from a pristine process, ageing it first."""
    def go():
        a = Aged.__new__(Aged)
        a.prop, a.n, a.key, a.gen, a.db = prop, 0, sc["age"]["key"], None, db
        a.age(sc["age"]["n"])
        freeze()
        return fork_call(lambda: prop.run(sc) if limit is None else prop.run(sc, limit), timeout)

    kind, val = fork_call(go, timeout + 120)
    return tuple(val) if kind == "ok" else (kind, val)


AGED = None


class Violation:
    def __init__(self, cls, detail):
        self.cls = cls
        self.detail = detail

    def json(self):
        return {"class": self.cls, "detail": self.detail}


class Ctx:
    """Reference answers of one worker, by phase."""

    def __init__(self, prop):
        self.prop = prop
        self.refs = {}
        self.profs = {}
        self.steps = {}
        self.calls = {}
        self.nrefs = 0

    def ref(self, op, world=None, prof=False):
        k = (key(op), key(world) if world else "")
        if k in self.refs and (not prof or self.profs.get(k)):
            return self.refs[k]
        kind, val = fork_call(lambda: run_reference(op, world, prof))
        self.nrefs += 1
        if kind == "timeout" or kind == "crash":
            raise HarnessError(f"reference {kind} for {k[0]}: {val}")
        if kind != "ok":
            raise HarnessError(f"reference failed for {k[0]}: {val}")
        out, sites, steps, calls = val
        if k in self.refs and self.refs[k] != out:
            raise HarnessError(f"reference of {k[0]} is not repeatable")
        self.refs[k] = out
        if prof:
            self.profs[k] = sorted(sites.items())
            self.steps[k] = steps
            self.calls[k] = calls
        return out

    def profile(self, op, world=None):
        self.ref(op, world, prof=True)
        return self.profs[(key(op), key(world) if world else "")]

    def calls_of(self, op, world=None):
        self.profile(op, world)
        return self.calls[(key(op), key(world) if world else "")]

    def steps_of(self, op, world=None):
        self.profile(op, world)
        return self.steps[(key(op), key(world) if world else "")]


def execute(sc, run=run_scenario, timeout=None, limited=False):
    """Run a scenario in isolation; a run that does not end is repeated with a
    step limit, so that the verdict does not depend on the clock."""
    if timeout is None:
        timeout = getattr(getattr(run, "__self__", None), "run_timeout", RUN_TIMEOUT)
    if sc.get("virgin"):
        def call(limit, timeout):
            return VIRGIN.call(sc, limit, timeout)
    elif sc.get("age"):
        def call(limit, timeout):
            if AGED is not None:
                return AGED.call(sc, limit, timeout)
            from .db import Db

            return call_aged(run.__self__, Db(), sc, limit, timeout)
    else:
        def call(limit, timeout):
            return fork_call((lambda: run(sc)) if limit is None else (lambda: run(sc, limit)), timeout)
    kind, val = ("timeout", None) if limited else call(None, timeout)
    if kind == "ok":
        return val
    if kind == "timeout":
        kind, val = call(STEP_LIMIT, timeout * 5)
        if kind == "ok":
            return val
        if kind == "timeout":
            # Not even counting steps ends it: no Python line is being reached.
            return {"dead": "no progress", "hist": [], "fired": [], "nested": [], "audit": []}
        raise HarnessError(f"run did not end: {kind} {val}")
    if kind == "crash":
        return {"dead": f"crash {val}", "hist": [], "fired": [], "nested": [], "audit": []}
    raise HarnessError(val)


# ------------------------------------------------------------------ shrinker
def shrink(sc, failing, budget_s=40.0, max_runs=400):
    """Greedy minimisation; ``failing(sc)`` is true while the same class of
    violation still shows."""
    end = time.monotonic() + budget_s
    runs = [0]

    def ok(c):
        if runs[0] >= max_runs or time.monotonic() > end:
            return False
        runs[0] += 1
        try:
            return failing(c)
        except HarnessError:
            return False

    def drop_list(sc, get, put):
        items = get(sc)
        n = len(items)
        size = max(1, n // 2)
        while size >= 1 and items:
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                c = put(sc, cand)
                if ok(c):
                    sc, items = c, cand
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return sc

    def put_plan(s, items):
        return {**s, "plan": items}

    def put_audit(s, items):
        return {**s, "audit": items}

    changed = True
    while changed and runs[0] < max_runs and time.monotonic() < end:
        before = digest(sc)
        # whole threads
        for t in range(len(sc["threads"]) - 1, -1, -1):
            if len(sc["threads"]) > 1 and sc["threads"][t]:
                c = drop_thread(sc, t)
                if ok(c):
                    sc = c
        sc = drop_list(sc, lambda s: s["plan"], put_plan)
        if sc.get("audit"):
            sc = drop_list(sc, lambda s: s["audit"], put_audit)
        if sc.get("before"):
            sc = drop_list(sc, lambda s: s["before"], lambda s, x: {**s, "before": x})
        if sc.get("age"):
            c = {k: v for k, v in sc.items() if k != "age"}
            if ok(c):
                sc = c
        for t in range(len(sc["threads"])):
            size = max(1, len(sc["threads"][t]) // 2)
            while size >= 1:
                i = 0
                while i < len(sc["threads"][t]):
                    c = drop_ops(sc, t, i, size)
                    if ok(c):
                        sc = c
                    else:
                        i += size
                size = 0 if size == 1 else size // 2
        changed = digest(sc) != before
    return sc, runs[0]


def drop_thread(sc, t):
    threads = [o for i, o in enumerate(sc["threads"]) if i != t]
    n = len(threads)
    plan = []
    for d in sc["plan"]:
        if d["t"] == t:
            continue
        d = dict(d)
        if d["t"] > t:
            d["t"] -= 1
        if d["act"][0] == "sw":
            to = d["act"][1]
            to = to - 1 if to > t else to
            d["act"] = ["sw", to % n]
        plan.append(d)
    first = sc.get("first", 0)
    if first > t:
        first -= 1
    return {**sc, "threads": threads, "plan": plan, "first": first % n}


def drop_ops(sc, t, i, size):
    ops = sc["threads"][t]
    n = len(ops[i:i + size])
    new = ops[:i] + ops[i + size:]
    plan = []
    for d in sc["plan"]:
        if d["t"] == t:
            if i <= d["op"] < i + n:
                continue
            if d["op"] >= i + n:
                d = {**d, "op": d["op"] - n}
        plan.append(d)
    threads = list(sc["threads"])
    threads[t] = new
    return {**sc, "threads": threads, "plan": plan}
