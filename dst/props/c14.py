"""C14: a process repeating the same queries for ever uses constant resources."""
import gc
import os
import sys

from .. import sim as _sim
from .. import moving
from ..base import Phase, QueryProp, plan_excs
from ..harness import Violation
from ..sim import EXC

SIZED = (dict, list, set, frozenset, tuple, str, bytes, bytearray)
ROUNDS = 6
WARM = 2
#: operations executed before a suspected growth is believed
CONFIRM_OPS = 2400


def census(out):
    """Live containers: how many, and how many elements they hold in all.  Writes
    into ``out``; allocates nothing that survives."""
    gc.collect()
    objs = gc.get_objects()
    n = len(objs)
    elements = 0
    seen = set()
    tracked = gc.is_tracked
    for o in objs:
        t = type(o)
        if t in SIZED or (hasattr(t, "__len__") and t.__module__ in ("collections", "builtins")):
            try:
                elements += len(o)
            except Exception:  # noqa: BLE001
                pass
        for x in gc.get_referents(o):
            if type(x) in SIZED and not tracked(x):
                i = id(x)
                if i not in seen:
                    seen.add(i)
                    elements += len(x)
    out[0], out[1] = n, elements
    out[2] = len(os.listdir("/proc/self/fd"))
    out[3] = len(sys._current_frames())


WORDS = ["zorka", "zorla", "zorma", "zorna"]


def redefine(r):
    """Names new to the database, defined again and again."""
    items, asked = [], []
    for _ in range(r.choice([1, 1, 2, 4])):
        w = r.choice(WORDS)
        x = r.random()
        if x < 0.15:
            items.append({"t": "prefix", "name": "zorb", "value": str(r.choice([7, 13])), "symbols": ["zo"]})
            asked += ["zorbmeter", "zom"]
            continue
        it = {"t": "base" if x < 0.35 else "def", "name": [w, w + "s"], "symbols": [w[-2:] + "x"],
              "def": f"{r.choice([3, 5])} " + r.choice(["meter", "second", "newton", *asked[:1]])}
        if r.random() < 0.3:
            it["aliases"] = [[w + "a", w + "as"]]
            asked.append(w + "a")
        items.append(it)
        asked += [w, w + "s", w[-2:] + "x", "kilo" + w]
    q = r.choice(asked)
    return {"o": "redefine", "items": items,
            "op": {"o": "unit", "q": r.choice(["{q}", "{q}", "3 {q}/s", "{q}^2"]).format(q=q), "w": ["str", "exp", "dim"]}}


NAMES = ["live objects", "elements held by live objects", "open files", "threads", "steps"]


class C14(QueryProp):
    id = "C14"
    quick_runs = 2000
    run_timeout = 60.0
    thorough_runs = 40000
    phases = [Phase("warm", True, 40, 1.0)]
    rule = (
        "one workload of 1-6 operations (queries that succeed and fail, loads, redefinitions of names, copies, "
        "exhausted stacks, and "
        "exceptions at seeded line events), repeated by one thread or by new ones for 6 rounds of 2-12 repetitions; after each round "
        "every live object of the process is counted, with what it holds, as are open files, threads "
        "and (in three of the rounds) executed lines. Anything that grows in each of the last rounds is "
        "reported only if it keeps growing for 2400 more operations. Non-trivial: all rounds ran and "
        "the workload contains a failing or interrupted operation, a load or a conversion."
    )
    real = QueryProp.real
    stub = QueryProp.stub + ["size of sympy's own bounded cache (SYMPY_CACHE_SIZE=20, so that it is full at once)"]
    assumptions = QueryProp.assumptions + [
        "memory held inside C extensions and not visible to the collector is not measured",
        "sympy's bounded caches are part of the constant",
    ]

    def worker_env(self, scratch):
        return {"SYMPY_CACHE_SIZE": "20"}

    def make_pool(self, gen, r, n):
        from ..workload import FAILING

        pool = []
        for _ in range(n):
            x = r.random()
            if x < 0.55:
                pool.append(gen.op())
            elif x < 0.7:
                pool.append(gen.hop())
            elif x < 0.95:
                q = r.choice(FAILING)
                pool.append({"o": "unit", "q": q, "w": ["str", "exp"]})
            else:
                pool.append({"o": "unit", "q": gen.query() + r.choice([" nosuch", "^", "/qqq", " ("]), "w": ["str"]})
        pool.append({"o": "load", "audit": ["m", "nosuch"]})
        for _ in range(max(2, n // 10)):
            pool.append(redefine(r))
        # the whole system is copied, or prepared objects are
        pool.append({"o": "dupe", "via": r.choice([v for v in moving.VIAS if v != "pypickle"]), "op": gen.op(cheap=1.0)})
        for _ in range(max(1, n // 16)):
            op = gen.hop()
            if op["o"] == "hobs":
                pool.append({"o": "carry", "via": r.choice(moving.VIAS), "to": "here", "which": "both", "whole": False, "op": op})
        return pool

    def establish(self, ctx, op):
        from ..harness import HarnessError

        if op["o"] not in ("unit", "name", "load") and any(x in str(op) for x in ("lg(", "ln(", "lb(")):
            raise HarnessError("seconds of symbolic algebra: too slow to repeat")
        ctx.profile(op)
        if ctx.steps_of(op) > 60_000:
            raise HarnessError("too slow to repeat")

    def scenario(self, r, pool, ctx, phase):
        k = r.choice([1, 1, 2, 3, 6])
        ops = [r.choice(pool) for _ in range(k)]
        for i, op in enumerate(ops):
            if r.random() < 0.08 and op["o"] in ("unit", "name"):
                ops[i] = {"o": "lowstack", "n": r.choice([20, 40, 60, 90, 140]), "op": op}
        plan = []
        if r.random() < 0.5:
            plan = plan_excs(r, [ops], Inner(ctx), None, r.choice([1, 1, 2, 3]), sorted(EXC))
        cost = sum(50_000 if o["o"] == "dupe" else ctx.steps_of(o.get("op", o)) for o in ops)
        reps = max(2, min(12, 150_000 // max(1, cost)))
        sc = {"threads": [ops], "plan": plan, "first": 0, "reps": reps}
        if not plan and r.random() < 0.3:
            sc["anew"] = True
        elif r.random() < 0.3:
            sc["main"] = 0
        return sc

    def once(self, W, sc, limit=None):
        s = _sim.Sim(lambda t, i, op: (W.execute(op), None)[1], sc["threads"], sc["plan"], limit=limit)
        s.run(0, sc.get("main"))
        return s

    def measure(self, W, sc, warm, rounds, reps, stepped):
        rows = [[0] * 5 for _ in range(rounds)]
        fired = []
        dead = None
        ops = sc["threads"][0]
        for _ in range(warm):
            for _ in range(reps):
                s = self.once(W, sc)
        for row in rows:
            for _ in range(reps):
                if sc["plan"] or sc.get("anew"):
                    # (clients are new threads each time)
                    s = self.once(W, sc)
                    fired, dead = s.fired, s.dead
                else:
                    for op in ops:
                        W.execute(op)
                if dead:
                    return rows, fired, dead
            if stepped:
                row[4] = self.once(W, sc, 10 ** 9).steps
            s = None
            census(row)
        # relative to the first: the harness's own objects are in there too
        first = list(rows[0])
        for row in rows:
            for k in range(4):
                row[k] -= first[k]
        return rows, fired, dead

    @staticmethod
    def growing(rows):
        """Which figures went up in each of the last three intervals?"""
        tail = rows[-4:]
        return [k for k in range(5) if all(b[k] > a[k] for a, b in zip(tail, tail[1:]))]

    def run(self, sc, limit=None):
        from ..world import World

        if limit is not None:
            # took longer than a minute: says nothing about growth
            return {"dead": None, "hist": [], "fired": [], "nested": [], "clock": 0,
                    "rows": [], "again": None}
        gc.unfreeze()
        W = World()
        for op in sc["threads"][0]:
            W.prepare(op)
        rows, fired, dead = self.measure(W, sc, WARM, ROUNDS - WARM, sc["reps"], True)
        out = {"dead": dead, "hist": [], "fired": fired, "nested": [], "clock": 0,
               "rows": rows, "again": None}
        if not dead and self.growing(rows):
            # believed only if it goes on and on: caches of bounded size fill up
            per = max(1, len(sc["threads"][0])) * sc["reps"]
            k = max(1, -(-CONFIRM_OPS // (per * 4 * 4)))
            done = 0
            before = self.growing(rows)
            while done < CONFIRM_OPS and before and not out["dead"]:
                rows2, _, out["dead"] = self.measure(W, sc, 0, 4, sc["reps"] * k, True)
                done += per * 4 * k
                before = [k for k in before if k in self.growing(rows2)]
                out["again"] = rows2
        return out

    def check(self, sc, out, ctx):
        if out["dead"]:
            return Violation("stuck", {"what": out["dead"]})
        if out["again"]:
            grow = set(self.growing(out["rows"])) & set(self.growing(out["again"]))
            if grow:
                k = min(grow)
                return Violation("grows:" + NAMES[k], {
                    "what": [NAMES[g] for g in sorted(grow)], "figures": NAMES,
                    "per_round": out["rows"], "after_many_more": out["again"],
                    "operations_per_round": sc["reps"] * len(sc["threads"][0])})
        return None

    def nontrivial(self, sc, out):
        return bool(out.get("rows")) and (bool(out["fired"]) or any(
            o["o"] in ("load", "conv", "hconv", "compat", "eq", "heq", "hcompat", "unit", "lowstack")
            for o in sc["threads"][0]))

    def signature(self, sc, out):
        from ..rng import digest

        return digest([sc["threads"], [sc["plan"][i] for i in out["fired"]]])

    def kinds(self, sc, out):
        k = {}
        for i in out["fired"]:
            name = "exception " + sc["plan"][i]["act"][1]
            k[name] = k.get(name, 0) + ROUNDS * sc["reps"]
        if any(o["o"] == "lowstack" for o in sc["threads"][0]):
            k["exhausted stack"] = ROUNDS * sc["reps"]
        return k

    def ops_done(self, sc, out):
        return ROUNDS * sc["reps"] * len(sc["threads"][0])


class Inner:
    def __init__(self, ctx):
        self.ctx = ctx

    def profile(self, op, world=None):
        return self.ctx.profile(op.get("op", op))


PROP = C14()
