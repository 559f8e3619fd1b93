"""C02: queries leave no trace."""
from ..base import Phase, QueryProp
from ..rng import digest


class C02(QueryProp):
    id = "C02"
    quick_runs = 360
    thorough_runs = 8000
    phases = [Phase("warm", True, 90, 0.7), Phase("cold", False, 14, 0.15), Phase("aged", True, 0, 0.15, True)]
    stub = ["nothing: one client, the history is the only variable"]
    rule = (
        "one client, histories of 15-400 operations (lookups, comparisons, conversions, failures, "
        "garbage collections) drawn with repetition from a pool whose members were each answered "
        "alone by a pristine process; families of look-alike strings make confusions likely. "
        "Non-trivial: at least 15 operations."
    )
    assumptions = ["sympy, numpy and lxml are the installed versions, run for real"]

    def make_pool(self, gen, r, n):
        pool = []
        self.floods = [gen.flood() for _ in range(3)]
        self.churns = [gen.churn() for _ in range(4)]
        while len(pool) < n:
            x = r.random()
            if x < 0.1:
                pool += gen.dims() if x < 0.06 else gen.equals()
            elif x < 0.14:
                pool += gen.brackets()
            elif x < 0.55:
                pool += gen.family()
            elif x < 0.75:
                pool += gen.cluster()
            elif x < 0.9:
                pool.append(gen.op())
            else:
                pool.append(gen.hop())
        return pool[:n]

    def scenario(self, r, pool, ctx, phase):
        n = r.choice([15, 25, 40, 40, 80, 120]) if phase.warm else r.choice([15, 30])
        if r.random() < 0.04:
            n = 400
        if phase.warm and r.random() < 0.08:
            # short-lived objects, made and thrown away all the time
            work = r.choice(self.churns)
            gc = r.choice([0, 5, 20])
            ops = []
            for k in range(r.choice([120, 250, 400])):
                ops.append({"o": "gc"} if gc and k % gc == gc - 1 else r.choice(work))
            return {"threads": [ops], "plan": [], "audit": []}
        # a small working set makes repetition and interleaving frequent
        k = r.choice([4, 8, 12, 20, len(pool)])
        start = r.randrange(len(pool))
        work = [pool[(start + i) % len(pool)] for i in range(min(k, len(pool)))]
        ops = []
        while len(ops) < n:
            x = r.random()
            if x < 0.03:
                ops.append({"o": "gc"})
            elif x < 0.05:
                ops.append({"o": "forget"})
            elif x < 0.054 and phase.warm:
                ops.append(r.choice(self.floods))
            elif x < 0.85:
                ops.append(r.choice(work))
            else:
                ops.append(r.choice(pool))
        return {"threads": [ops], "plan": [], "audit": []}

    def signature(self, sc, out):
        return digest(sc["threads"])

    def nontrivial(self, sc, out):
        return len(out["hist"]) >= 15

    def kinds(self, sc, out):
        bad = sum(1 for h in out["hist"] if h[4][0] == "err")
        return {"failing operation in history": bad}

    def sites(self, sc, out):
        return set()


PROP = C02()
