"""C15: a process forked at any moment answers like a fresh one."""
from ..base import Phase, antlr_site, choose_site, plan_switches
from ..harness import Violation
from .c01 import C01


class C15(C01):
    id = "C15"
    quick_runs = 2400
    thorough_runs = 40000
    phases = [Phase("warm", True, 48, 0.55), Phase("cold", False, 10, 0.33), Phase("aged", True, 0, 0.12, True)]
    stub = C01.stub + ["multiprocessing and server frameworks (a bare fork, at seeded points)"]
    rule = (
        "0-3 client threads are stopped in the middle of operations (queries, failing queries, loads of "
        "the database) at seeded line/bytecode events; then another thread, or the interrupted thread "
        "itself, really forks, and the child - in which the other threads no longer exist - asks 1-4 "
        "operations, mostly the ones under way or their relatives. Its answers and afterwards the "
        "parent's are compared with a pristine process. A lock nobody is left to release is a "
        "verdict. Non-trivial: a fork happened while an operation was under way."
    )

    def make_pool(self, gen, r, n):
        pool = super().make_pool(gen, r, n - 2)
        pool.append({"o": "load", "audit": [gen.ident(), "km", "nosuch"]})
        pool.append({"o": "load", "audit": ["W", gen.ident()]})
        return pool

    def scenario(self, r, pool, ctx, phase):
        base = r.randrange(len(pool))
        near = [pool[(base + k) % len(pool)] for k in range(-2, 3)]

        def some(n):
            return [r.choice(near) if r.random() < 0.8 else r.choice(pool) for _ in range(n)]

        nt = r.choice([1, 1, 1, 2, 3])
        threads = [some(r.choice([1, 1, 2, 3])) for _ in range(nt)]
        under_way = [o for t in threads for o in t]

        def fork():
            ops = [r.choice(under_way) if r.random() < 0.7 else x for x in some(r.choice([1, 1, 2, 3]))]
            return {"o": "fork", "ops": ops}

        def point(op, bias):
            prof = ctx.profile(op)
            if not phase.warm and r.random() < 0.6:
                return antlr_site(r, prof) or choose_site(r, prof, bias=bias)
            return choose_site(r, prof, bias=bias)

        plan = []
        own = r.random()
        if own < 0.25:
            # in the middle of an operation of the same thread (a signal handler)
            for _ in range(r.choice([1, 1, 2])):
                t = r.randrange(nt)
                i = r.randrange(len(threads[t]))
                c = point(threads[t][i], 0.35)
                if c:
                    plan.append({"t": t, "op": i, "site": c[0], "occ": c[1], "act": ["nest", fork()]})
        forker = [fork() for _ in range(r.choice([1, 2, 4, 7]))]
        if r.random() < 0.2:
            forker.insert(r.randrange(len(forker)), r.choice(near))
        threads.append(forker)
        f = nt
        for k in range(len(forker)):
            # every other client goes as far as its point; then the fork
            for t in range(nt):
                i = r.randrange(len(threads[t]))
                c = point(threads[t][i], 0.5)
                if c:
                    plan.append({"t": t, "op": i, "site": c[0], "occ": c[1],
                                 "act": ["sw", f if t == nt - 1 or r.random() < 0.4 else t + 1]})
            if k:
                plan.append({"t": f, "op": k, "site": "@op", "act": ["sw", r.randrange(nt)]})
        if nt > 1 and r.random() < 0.5:
            plan += plan_switches(r, threads[:nt], ctx, None, r.choice([1, 2, 3]), dense=0)
        audit = r.sample(under_way, min(len(under_way), 2)) + [r.choice(pool)]
        sc = {"threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}
        if r.random() < 0.3:
            # this client is the process's main thread
            sc["main"] = r.randrange(len(threads))
        return sc

    def refs_for(self, sc, ctx, op):
        if op["o"] == "fork":
            return ["ok", [ctx.ref(o) for o in op["ops"]]]
        return ctx.ref(op)

    def check(self, sc, out, ctx):
        forks = [(sc["threads"][t][i], got) for t, i, _, _, got in out["hist"]]
        forks += [(sc["plan"][idx]["act"][1], got) for _, _, idx, got, _, _ in out["nested"]]
        for op, got in forks:
            if op["o"] != "fork":
                continue
            want = self.refs_for(sc, ctx, op)
            if got == want:
                continue
            if got[0] != "ok":
                return Violation(f"fork-failed:{got[1]}", {"op": op, "got": got})
            if len(got[1]) != len(op["ops"]) or got[1] and isinstance(got[1][0], str):
                return Violation("child:" + str(got[1][0]), {"op": op, "got": got})
            for o, g, w in zip(op["ops"], got[1], want[1]):
                if g != w:
                    return Violation(f"child:{o['o']}:{g[0]}-for-{w[0]}", {"op": o, "got": g, "expected": w})
        return super().check(sc, out, ctx)

    def forked_under_way(self, sc, out):
        """Forks at a moment when some operation had been begun and not ended."""
        n = sum(1 for _, _, idx, *_ in out["nested"] if sc["plan"][idx]["act"][1]["o"] == "fork")
        spans = [(t0, t1) for t, i, t0, t1, _ in out["hist"] if sc["threads"][t][i]["o"] != "fork"]
        for t, i, t0, t1, _ in out["hist"]:
            if sc["threads"][t][i]["o"] == "fork" and any(a < t0 and t1 < b for a, b in spans):
                n += 1
        return n

    def nontrivial(self, sc, out):
        return self.forked_under_way(sc, out) > 0

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        k.pop("reentrant call", None)
        n = self.forked_under_way(sc, out)
        if n:
            k["fork while operations were under way"] = n
        return k


PROP = C15()
