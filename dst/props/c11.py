"""C11: a shared converter is a pure function of the value."""
from ..base import Phase, QueryProp, plan_excs, plan_nests, plan_switches
from ..harness import Violation
from ..sim import EXC


class C11(QueryProp):
    id = "C11"
    quick_runs = 1600
    thorough_runs = 30000
    phases = [Phase("warm", True, 7, 0.85), Phase("aged", True, 0, 0.15, True)]
    rule = (
        "1-3 clients convert numbers (int, float, Decimal, Fraction, numpy scalars, the caller's own types whose arithmetic raises or converts again) and arrays on "
        "converters they share, reuse and overwrite one array between calls, overwrite results, build further "
        "converters between the same units, with preemptions, exceptions and nested conversions at "
        "seeded events; arguments, results and earlier results are all checked. Non-trivial: a "
        "fault or preemption fired, or at least 6 conversions on shared converters."
    )

    def make_pool(self, gen, r, n):
        # one pool entry per converter: operations on it
        pool = []
        tried = 0
        while len(pool) < n and tried < n * 6:
            tried += 1
            gen.cheap = True
            a, b = gen.pair()
            gen.cheap = False
            x = r.random()
            if x < 0.15:
                a, b = r.choice([("degC", "K"), ("degF", "degC"), ("K", "degF"), ("m", "m"), ("s", "1/s"),
                                 ("m/s", "km/h"), ("lg(re m)", "m"), ("m", "lg(re km)"), ("hours", "s")])
            c = [a, b]
            ops = []
            for v in r.sample(gen.NUMS, 9):
                ops.append({"o": "hcvt", "c": c, "v": v})
                if v[0] == "nd" and r.random() < 0.5:
                    ops.append({"o": "hcvt", "c": c, "v": v, "scribble": True})
            for _ in range(2):
                # numbers of the caller's own making
                ops.append({"o": "hcvt", "c": c, "v": ["quirk", "raise", r.choice([1.5, 4.0]), r.choice([1, 1, 2, 3])]})
                ops.append({"o": "hcvt", "c": c, "v": ["quirk", "nest", r.choice([1.5, 4.0]), r.choice([1, 1, 2, 3])],
                            "inner": r.choice([["f", 2.5], ["quirk", "plain", 3.0, 0]])})
            for _ in range(3):
                k = r.choice([1, 3, 4])
                ops.append({"o": "hcvtmut", "c": c, "v": ["nd", "float64", [k], [float(i) for i in range(k)]],
                            "v2": ["nd", "float64", [k], [float(i * i + 7) for i in range(k)]]})
            size = r.choice([200, 1100, 5000, 70_000, 270_000])
            dtype = r.choice(["float64", "float64", "float32", "int64"])
            big = [["big", dtype, size, r.randrange(1000)] for _ in range(2)]
            ops += [{"o": "hcvt", "c": c, "v": b, **({"scribble": True} if r.random() < 0.3 else {})} for b in big]
            ops.append({"o": "hcvtmut", "c": c, "v": big[0], "v2": big[1]})
            ops.append({"o": "hexpr", "c": c})
            ops.append({"o": "conv", "a": a, "b": b, "v": [r.choice(gen.NUMS)]})
            ops.append({"o": "conv", "a": b, "b": a, "v": [r.choice(gen.NUMS)]})
            pool.append({"o": "group", "ops": ops})
        return pool

    def establish(self, ctx, g):
        from ..harness import HarnessError

        kept = []
        # arrays of sympy expressions are converted item by item: not large ones
        small = ctx.ref({"o": "hcvt", "c": g["ops"][0]["c"], "v": ["big", "float64", 3, 1]})
        if small[0] != "ok" or small[1][1] == "object":
            g["ops"] = [op for op in g["ops"] if not any(op.get(k, "?")[0] == "big" for k in ("v", "v2"))]
        for op in g["ops"]:
            out = self.refs_for(None, ctx, op)
            if op["o"] == "hcvtmut":
                ctx.profile(op)
            else:
                ctx.profile(op)
            if op["o"].startswith("hcvt") and out[0] != "ok" and out[1] == "IncompatibleUnitsError":
                continue
            kept.append(op)
        if not kept:
            raise HarnessError("no converter")
        g["ops"] = kept

    def refs_for(self, sc, ctx, op):
        if op["o"] == "kept":
            return ["ok", []]
        if "inner" in op:
            # what the outer conversion gives when nothing happens inside it
            return ctx.ref({"o": "hcvt", "c": op["c"], "v": ["quirk", "plain", op["v"][2], 0]})
        if op["o"] == "hcvtmut":
            a = ctx.ref({"o": "hcvt", "c": op["c"], "v": op["v"]})
            b = ctx.ref({"o": "hcvt", "c": op["c"], "v": op["v2"]})
            if a[0] == "ok" and b[0] == "ok":
                return ["ok", [a[1], b[1]]]
            return a if a[0] != "ok" else b
        return ctx.ref(op)

    def scenario(self, r, pool, ctx, phase):
        groups = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 3])))
        ops = [o for g in groups for o in g["ops"]]
        cv = [o for o in ops if o["o"].startswith("h")]
        nt = r.choice([1, 2, 2, 3])
        threads = []
        for _ in range(nt):
            n = r.choice([4, 8, 16]) if nt == 1 else r.choice([2, 4, 6])
            threads.append([r.choice(cv) if r.random() < 0.92 or not ops else r.choice(ops) for _ in range(n)])
        plan = plan_switches(r, threads, ctx, None, r.choice([1, 2, 3, 5]))
        if r.random() < 0.4:
            plan += plan_excs(r, threads, ctx, None, r.choice([1, 2]), sorted(EXC))
        if r.random() < 0.2:
            plan += plan_nests(r, threads, ctx, None, 1, cv)
        audit = [{"o": "kept"}] + [r.choice(cv) for _ in range(4)] + [{"o": "kept"}]
        return {"threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def check(self, sc, out, ctx):
        for op, got in [(sc["threads"][h[0]][h[1]], h[4]) for h in out["hist"]]:
            if got[0] == "ok" and isinstance(got[1], list) and got[1][:1] == ["BROKEN input changed"]:
                return Violation("input-changed", {"op": op, "got": got})
        def outer(op, got):
            if got[0] == "ok" and isinstance(got[1], dict) and "inner" in got[1]:
                want = ctx.ref({"o": "hcvt", "c": op["c"], "v": op["inner"]})
                for x in got[1]["inner"]:
                    if want != ["ok", x]:
                        wrong.append({"op": op, "inside": got, "expected": want})
                return ["ok", got[1]["outer"]]
            return got

        wrong = []
        out = {**out,
               "hist": [h[:4] + [outer(sc["threads"][h[0]][h[1]], h[4])] for h in out["hist"]],
               "nested": [n[:3] + [outer(sc["plan"][n[2]]["act"][1], n[3])] + n[4:] for n in out["nested"]],
               "audit": [outer(op, got) for op, got in zip(sc["audit"], out.get("audit", ()))]}
        if wrong:
            return Violation("inside-a-conversion", wrong[0])
        return super().check(sc, out, ctx)

    def nontrivial(self, sc, out):
        return bool(out["fired"]) or len(out["hist"]) >= 6


PROP = C11()
