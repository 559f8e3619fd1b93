"""C03: a query cut short at any point damages nothing."""
from ..base import Phase, QueryProp, aim_antlr, barrage, plan_excs, plan_switches
from ..sim import EXC


class C03(QueryProp):
    id = "C03"
    quick_runs = 1600
    thorough_runs = 30000
    phases = [Phase("warm", True, 56, 0.55), Phase("cold", False, 10, 0.3), Phase("aged", True, 0, 0.15, True)]
    rule = (
        "1-2 clients with 1-6 operations; 1-3 asynchronous exceptions (KeyboardInterrupt, "
        "MemoryError, RecursionError, an ordinary Exception, a BaseException) raised at seeded line "
        "events of the package, or 8-60 of them at one place or in one function (barrage), or real stack exhaustion at a seeded depth; afterwards the cut "
        "operations and others run again and are compared with a pristine process. Non-trivial: at "
        "least one exception fired."
    )

    def make_pool(self, gen, r, n):
        pool = []
        while len(pool) < n:
            x = r.random()
            if x < 0.55:
                pool += gen.cluster()
            elif x < 0.7:
                pool += gen.family()[:3]
            elif x < 0.85:
                pool.append(gen.op())
            else:
                pool.append(gen.hop())
        return pool[:n]

    def scenario(self, r, pool, ctx, phase):
        base = r.randrange(len(pool))

        def some(n):
            return [
                pool[(base + r.randrange(-2, 3)) % len(pool)] if r.random() < 0.7 else r.choice(pool)
                for _ in range(n)
            ]

        if r.random() < 0.12:
            # real stack exhaustion (operations that never enter sympy)
            light = [o for o in pool if o["o"] == "unit" and o["w"] == ["str", "exp"]
                     or o["o"] == "name"]
            if light:
                ops = []
                for _ in range(r.randint(1, 4)):
                    o = r.choice(light)
                    ops.append({"o": "lowstack", "n": r.randint(3, 80), "op": o})
                    if r.random() < 0.4:
                        ops.append(r.choice(light))
                audit = [o["op"] if o["o"] == "lowstack" else o for o in ops] + some(2)
                return {"threads": [ops], "plan": [], "audit": audit}
        if r.random() < 0.12:
            got = barrage(r, pool, ctx)
            if got:
                audit = [got[0][0]] + some(3) + [got[0][-1]]
                return {"threads": [got[0]], "plan": got[1], "audit": audit}
        threads = [some(r.choice([1, 2, 3, 5]))]
        if r.random() < 0.25:
            threads.append(some(r.choice([1, 2, 3])))
        plan = plan_excs(r, threads, ctx, None, r.choice([1, 1, 2, 3]), sorted(EXC),
                         0.75 if phase.warm else 0.3)
        if len(threads) > 1:
            plan += plan_switches(r, threads, ctx, None, r.choice([1, 2, 3]))
        if not phase.warm:
            plan = aim_antlr(r, plan, threads, ctx, 0.6)
        audit = [o for t in threads for o in t]
        r.shuffle(audit)
        audit = audit[:5] + some(2)
        sc = {"threads": threads, "plan": plan, "first": r.randrange(len(threads)), "audit": audit}
        if r.random() < 0.3:
            # this client is the process's main thread
            sc["main"] = r.randrange(len(threads))
        return sc

    def refs_for(self, sc, ctx, op):
        if op["o"] == "lowstack":
            return ["ok", ctx.ref(op["op"])]
        return ctx.ref(op)

    def check(self, sc, out, ctx):
        hist = []
        for h in out["hist"]:
            op, got = sc["threads"][h[0]][h[1]], h[4]
            if op["o"] == "lowstack" and got[0] == "err" and got[1] == "RecursionError":
                continue
            hist.append(h)
        return super().check(sc, {**out, "hist": hist}, ctx)

    def nontrivial(self, sc, out):
        return any(sc["plan"][i]["act"][0] == "exc" for i in out["fired"]) or any(
            h[4][0] == "err" and h[4][1] == "RecursionError" for h in out["hist"]
        )

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        n = sum(1 for h in out["hist"] if sc["threads"][h[0]][h[1]]["o"] == "lowstack"
                and h[4][:2] == ["err", "RecursionError"])
        if n:
            k["stack exhausted"] = n
        return k


PROP = C03()
