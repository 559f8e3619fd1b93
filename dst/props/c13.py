"""C13: a query may interrupt another on the same thread and use the system."""
from ..base import plan_nests, plan_switches
from .c01 import C01


class C13(C01):
    id = "C13"
    quick_runs = 1200
    rule = (
        "1-2 clients; 1-3 whole operations executed re-entrantly inside another operation at seeded "
        "line/bytecode events (as a signal handler, finaliser or trace hook would), often the same "
        "operation or one on the same objects. Non-trivial: at least one nested operation ran."
    )

    def scenario(self, r, pool, ctx, phase):
        base = r.randrange(len(pool))
        near = [pool[(base + k) % len(pool)] for k in range(-2, 3)]
        threads = [[r.choice(near) for _ in range(r.choice([1, 2, 3]))]]
        if r.random() < 0.3:
            threads.append([r.choice(near) for _ in range(r.choice([1, 2]))])
        used = [o for t in threads for o in t]
        cand = used * 2 + near + [r.choice(pool)]
        plan = plan_nests(r, threads, ctx, None, r.choice([1, 1, 2, 3]), cand, r.choice([0.3, 0.7]))
        if phase.warm and r.random() < 0.05:
            plan = plan_nests(r, threads, ctx, None, r.choice([1, 2]), self.floods)
        plan += plan_switches(r, threads, ctx, None, r.choice([1, 2]))
        audit = r.sample(used, min(len(used), 3)) + [r.choice(pool)]
        sc = {"threads": threads, "plan": plan, "first": r.randrange(len(threads)), "audit": audit}
        if r.random() < 0.3:
            # this client is the process's main thread
            sc["main"] = r.randrange(len(threads))
        return sc

    def nontrivial(self, sc, out):
        return bool(out["nested"])


PROP = C13()
