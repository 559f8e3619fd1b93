"""C01: concurrent callers get the single-threaded answers."""
from ..base import QueryProp, choose_site, plan_dense, plan_stall, plan_switches


class C01(QueryProp):
    id = "C01"
    quick_runs = 8000
    thorough_runs = 120000
    rule = (
        "2-4 (at times up to 18) client threads, 1-6 operations each, drawn from a pool in which clusters of "
        "operations share identifiers and shared unit/converter objects; 1-6 seeded preemption "
        "points (plus bursts) at line/bytecode events of the package. Non-trivial: at least one "
        "preemption fired inside an operation or between two."
    )

    def make_pool(self, gen, r, n):
        pool = []
        self.floods = [gen.flood() for _ in range(3)]
        while len(pool) < n:
            x = r.random()
            if x < 0.45:
                pool += gen.cluster()
            elif x < 0.65:
                pool += gen.family()[:4]
            elif x < 0.85:
                pool.append(gen.op(cheap=0.45))
            else:
                pool.append(gen.hop())
        return pool[:n]

    def scenario(self, r, pool, ctx, phase):
        x = r.random()
        if x < 0.06 and phase.warm:
            return self.flooded(r, pool, ctx)
        if x < 0.59:
            return self.duel(r, pool, ctx)
        if x < 0.63:
            return self.crowd(r, pool, ctx)
        nt = r.choice([2, 2, 2, 2, 3, 4])
        base = r.randrange(len(pool))
        threads = []
        for _ in range(nt):
            ops = []
            for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
                x = r.random()
                if x < 0.55:
                    ops.append(pool[(base + r.randrange(-2, 3)) % len(pool)])
                else:
                    ops.append(r.choice(pool))
            threads.append(ops)
        plan = plan_switches(r, threads, ctx, None, r.choice([1, 1, 2, 3, 4, 6]))
        used = [o for t in threads for o in t]
        audit = r.sample(used, min(len(used), 3)) + [r.choice(pool)]
        return {"threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def flooded(self, r, pool, ctx):
        """While one client is in the middle of something, another asks more
        different questions than a bounded cache could keep the answers of."""
        ops = [r.choice(pool) for _ in range(r.choice([1, 2]))]
        other, plan = [], []
        for k in range(r.choice([1, 2, 3])):
            if k:
                plan.append({"t": 1, "op": k, "site": "@op", "act": ["sw", 0]})
            other.append(r.choice(self.floods))
            i = r.randrange(len(ops))
            c = choose_site(r, ctx.profile(ops[i]), bias=0.8)
            if c:
                plan.append({"t": 0, "op": i, "site": c[0], "occ": c[1], "act": ["sw", 1]})
        return {"threads": [ops, other], "plan": plan, "first": 0, "audit": ops[:1]}

    def crowd(self, r, pool, ctx):
        """Many clients, all held in the middle of an operation, mostly in the
        same place, before the first goes on."""
        a = r.choice(pool)
        alike = [o for o in pool if o["o"].lstrip("h") == a["o"].lstrip("h")]
        nt = r.choice([5, 6, 9, 12, 18])
        threads = [[a if r.random() < 0.5 else r.choice(alike)] for _ in range(nt)]
        threads[0] = [a]
        at = plan_stall(r, threads, ctx)
        where = at[0]["site"].rpartition("|")[0] if at else None
        plan = []
        for t in range(nt - 1):
            mine = [(s, n) for s, n in ctx.profile(threads[t][0]) if s.rpartition("|")[0] == where]
            if mine and r.random() < 0.9:
                s, n = r.choice(mine) if r.random() < 0.5 or threads[t] != [a] else (at[0]["site"], at[0]["occ"])
                plan.append({"t": t, "op": 0, "site": s, "occ": min(n, at[0]["occ"]), "act": ["sw", t + 1]})
            else:
                plan += plan_stall(r, threads, ctx, t=t, to=t + 1)
        return {"threads": threads, "plan": plan, "first": 0, "audit": [a]}

    def duel(self, r, pool, ctx):
        """Two clients, one operation each (often alike), cut close to a write
        to memory both can see: the cheapest shape of a race, so many of them."""
        a = r.choice(pool)
        alike = [o for o in pool if o["o"].lstrip("h") == a["o"].lstrip("h")]
        b = r.choice(alike) if r.random() < 0.7 else r.choice(pool)
        if r.random() < 0.15:
            b = a
        threads = [[a], [b]]
        if r.random() < 0.35:
            if r.random() < 0.5:
                threads[1] = [a]
            return {"threads": threads, "plan": plan_stall(r, threads, ctx), "first": 0,
                    "audit": [b] if r.random() < 0.3 else []}
        if r.random() < 0.6:
            plan = plan_dense(r, threads, ctx, None)
        else:
            plan = plan_switches(r, threads, ctx, None, r.choice([1, 2, 3]), burst=0.1, bias=0.7, dense=0)
        return {"threads": threads, "plan": plan, "first": r.randrange(2),
                "audit": [r.choice([a, b])] if r.random() < 0.7 else []}


PROP = C01()
