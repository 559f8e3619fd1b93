"""C16: the caller's process-wide settings are neither changed nor relied upon."""
import os
import threading

from .. import settings
from .. import sim as _sim
from ..base import MAX_STEPS, Phase, QueryProp, aim_antlr, plan_excs, plan_nests, plan_switches, split_profile
from ..harness import Violation
from ..sim import EXC


def some_line(r, prof):
    """A point of an operation: functions count alike, however long they are."""
    core, antlr, inst = split_profile(prof)
    grp = antlr if antlr and r.random() < 0.2 else core
    if not grp:
        return None
    f = r.choice(sorted({s.rpartition("|")[0] for s, _ in grp}))
    return r.choice([x for x in grp if x[0].rpartition("|")[0] == f])


class C16(QueryProp):
    id = "C16"
    quick_runs = 4000
    thorough_runs = 60000
    phases = [Phase("warm", True, 44, 0.6), Phase("cold", False, 10, 0.25), Phase("aged", True, 0, 0.15, True)]
    rule = (
        "1-3 clients with 1-4 operations each (queries, failing queries, loads, registrations and replacements), in a "
        "process whose settings a seeded caller has chosen; preemptions, exceptions of five types, nested "
        "operations and exhausted stacks at seeded points. 35 process-wide settings are written down "
        "whenever no operation is under way and 5 of each thread's around each operation; output to the standard "
        "streams is captured; answers are compared with a pristine process of default settings. "
        "Non-trivial: a fault or switch fired, or the caller had settings of their own."
    )
    stub = QueryProp.stub + ["terminal (standard output and error go to memory)"]
    assumptions = QueryProp.assumptions + [
        "settings are compared when no call is under way; numpy's warnings are not counted as output"]

    def make_pool(self, gen, r, n):
        pool = []
        while len(pool) < n - 2:
            x = r.random()
            if x < 0.3:
                pool += gen.cluster()
            elif x < 0.7:
                pool.append(gen.op(cheap=0.45))
            elif x < 0.85:
                pool.append(gen.hop())
            else:
                gen.cheap = True
                a, b = gen.pair()
                gen.cheap = False
                pool.append({"o": "hcvt", "c": [a, b], "v": r.choice(gen.NUMS)})
        pool = pool[:n - 2]
        pool.append({"o": "load", "audit": [gen.ident(), "km", "nosuch"]})
        pool.append({"o": "load", "audit": ["W"]})
        return pool

    def scenario(self, r, pool, ctx, phase):
        if phase.warm and not phase.aged and r.random() < 0.12:
            # registrations: the scenarios of other properties
            from . import c08, c10

            other = r.choice([c08.PROP, c10.PROP])
            sc = other.scenario(r, [], ctx, phase)
            sc["other"] = other.id
        else:
            sc = self.queries(r, pool, ctx, phase)
        if r.random() < 0.5:
            sc["main"] = 0
        sc["found"] = {"k": r.randrange(1000),
                       "process": sorted(r.sample(sorted(settings.TWEAKS), r.choice([0, 1, 3, 6]))),
                       "thread": sorted(r.sample(sorted(settings.THREAD_TWEAKS), r.choice([0, 1, 2])))}
        return sc

    def overlap(self, r, pool, ctx):
        """Two calls alike that overlap without one containing the other: what
        the first saved is put back while the second has saved it again."""
        a = r.choice(pool)
        alike = [o for o in pool if o["o"] == a["o"]]
        b = r.choice([a, r.choice(alike)])
        c = some_line(r, ctx.profile(a))
        if c is None:
            return None
        f = c[0].rpartition("|")[0]
        there = [x for x in ctx.profile(b) if x[0].rpartition("|")[0] == f]
        if not there:
            return None
        d = r.choice([x for x in there if x[0] == c[0]] or there)
        plan = [{"t": 0, "op": 0, "site": c[0], "occ": 1 if r.random() < 0.6 else r.randint(1, c[1]), "act": ["sw", 1]},
                {"t": 1, "op": 0, "site": d[0], "occ": 1 if r.random() < 0.6 else r.randint(1, d[1]), "act": ["sw", 0]}]
        return {"threads": [[a], [b]], "plan": plan, "first": 0, "audit": []}

    def queries(self, r, pool, ctx, phase):
        if r.random() < 0.45:
            sc = self.overlap(r, pool, ctx)
            if sc:
                return sc
        base = r.randrange(len(pool))

        def some(n):
            return [pool[(base + r.randrange(-2, 3)) % len(pool)] if r.random() < 0.5 else r.choice(pool)
                    for _ in range(n)]

        nt = r.choice([1, 1, 2, 2, 2, 3])
        threads = [some(r.choice([1, 1, 2, 4])) for _ in range(nt)]
        same = r.random() < 0.4
        if same and nt > 1:
            threads[1] = list(threads[0])
        plan = []
        x = r.random()
        if x < 0.55 or nt == 1:
            plan += plan_excs(r, threads, ctx, None, r.choice([1, 1, 2, 3]), sorted(EXC), 0.8)
        if nt > 1:
            plan += plan_switches(r, threads, ctx, None, r.choice([1, 2, 3, 4]))
        if r.random() < 0.2:
            plan += plan_nests(r, threads, ctx, None, 1, pool)
        if not phase.warm:
            plan = aim_antlr(r, plan, threads, ctx, 0.4)
        if r.random() < 0.06:
            light = [(t, i) for t, ops in enumerate(threads) for i, o in enumerate(ops)
                     if o["o"] == "unit" and o["w"] == ["str", "exp"] or o["o"] == "name"]
            if light:
                t, i = r.choice(light)
                threads[t][i] = {"o": "lowstack", "n": r.randint(3, 80), "op": threads[t][i]}
                plan = [d for d in plan if (d["t"], d["op"]) != (t, i)]
        used = [o for t in threads for o in t if o["o"] != "lowstack"]
        return {"threads": threads, "plan": plan, "first": r.randrange(nt),
                "audit": r.sample(used, min(2, len(used)))}

    def run(self, sc, limit=None):
        from ..world import World

        if limit is not None:
            limit += MAX_STEPS * (sum(len(t) for t in sc["threads"]) + len(sc.get("audit", ())))
        import sys

        fd = os.memfd_create("terminal")
        sys.stdout.flush()
        sys.stderr.flush()
        keep = os.dup(1), os.dup(2)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        import warnings

        warnings.showwarning = lambda *a, **k: None
        W = World(sc.get("world"))
        for op in [o for t in sc["threads"] for o in t] + sc.get("audit", []):
            W.prepare(op)
        for d in sc["plan"]:
            if d["act"][0] == "nest":
                W.prepare(d["act"][1])
        found = sc["found"]
        settings.apply(found["process"], found["k"], settings.TWEAKS)
        settings.of_thread()
        first = settings.process_wide()
        left = []
        state = {"under_way": 0}
        dressed = set()

        def differ(a, b, who):
            for n in a:
                if a[n] != b[n] and len(left) < 6:
                    left.append([n, who, repr(a[n])[:300], repr(b[n])[:300]])

        def execute(t, i, op):
            me = threading.get_ident()
            if me not in dressed:
                dressed.add(me)
                settings.apply(found["thread"], found["k"], settings.THREAD_TWEAKS)
            mine = settings.of_thread()
            state["under_way"] += 1
            try:
                return W.execute(op)
            finally:
                state["under_way"] -= 1
                differ(mine, settings.of_thread(), [t, i])
                if not state["under_way"]:
                    differ(first, settings.process_wide(), [t, i])

        s = _sim.Sim(execute, sc["threads"], sc["plan"], limit=limit)
        s.run(sc.get("first", 0), sc.get("main"))
        out = {"hist": s.history, "fired": s.fired, "nested": s.nested, "dead": s.dead, "clock": s.clock}
        if not s.dead:
            differ(first, settings.process_wide(), ["the end", 0])
            if limit is None:
                out["audit"] = [execute("after", i, op) for i, op in enumerate(sc.get("audit", ()))]
            else:
                a = _sim.Sim(execute, [sc.get("audit", ())], [], limit=limit)
                a.run()
                out["dead"] = a.dead
                out["audit"] = [h[4] for h in a.history]
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        out["printed"] = os.pread(fd, 400, 0).decode("utf-8", "replace")
        os.close(fd)
        out["left"] = left
        return out

    def check(self, sc, out, ctx):
        if out.get("left"):
            n = out["left"][0]
            return Violation("changed:" + n[0], {"what": out["left"]})
        if out.get("printed"):
            return Violation("printed", {"what": out["printed"]})
        if sc.get("other"):
            if out["dead"]:
                return super().check({**sc, "threads": [[] for _ in sc["threads"]]}, out, ctx)
            return None
        hist = [h for h in out["hist"]
                if not (sc["threads"][h[0]][h[1]]["o"] == "lowstack" and h[4][:2] == ["err", "RecursionError"])]
        return super().check(sc, {**out, "hist": hist}, ctx)

    def refs_for(self, sc, ctx, op):
        if op["o"] == "lowstack":
            return ["ok", ctx.ref(op["op"])]
        return ctx.ref(op, sc.get("world"))

    def nontrivial(self, sc, out):
        return bool(out["fired"] or sc["found"]["process"] or sc["found"]["thread"])

    def signature(self, sc, out):
        from ..rng import digest

        return digest([super().signature(sc, out), sc["found"]])

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        n = len(sc["found"]["process"]) + len(sc["found"]["thread"])
        if n:
            k["setting chosen by the caller"] = n
        return k


PROP = C16()
