"""C07: unit systems in one process do not influence each other."""
from ..base import Phase, QueryProp, plan_excs, plan_nests, plan_switches
from ..harness import HarnessError
from ..sim import EXC

# Identifiers the shipped database also knows, given other meanings here.
WORDS = ["meter", "second", "gram", "newton", "hour", "day", "liter", "bar"]
SYMS = ["m", "s", "g", "N", "h", "d", "L", "T", "Pa", "K"]
PFX = [("kilo", "k"), ("milli", "m"), ("deka", "da"), ("micro", "u"), ("mega", "M")]
QUERIES = ["{a}", "{a}", "{p}{a}", "{a}/{b}", "5 {a}", "{a}^2 {b}-1", "lg(re {a})", "{p}{a} {b}",
           "{a} since 2000-01-01", "{a} @ 3", "2 ({a} @ 5)", "{a} ({b} @ 1)", "({a} @ 2)^2",
           "({a} since 2000-01-01) {b}", "{p}{a} @ 3", "lg(re {a})/{b}", "xyzzy", "{a}^", "km", "m", "k{a}"]


def make_system(r, tag):
    """A small system using the shared vocabulary with meanings of its own."""
    items = []
    for n, s in r.sample(PFX, 3):
        items.append({"t": "prefix", "name": n, "value": str(r.choice([2, 3, 7, "1e3", "1e-2", "0.5"])),
                      "symbols": [s]})
    words = r.sample(WORDS, 6)
    syms = r.sample(SYMS, 6)
    bases = []
    for i, (w, s) in enumerate(zip(words, syms)):
        it = {"t": "base", "name": [w, w + "s"], "symbols": [s]}
        if i < 2 or (i == 2 and tag == "A"):
            it["time"] = w == "second" or r.random() < 0.2
            it["dimless"] = r.random() < 0.15
            bases.append(w)
        else:
            it["t"] = "def"
            a, b = r.choice(bases), r.choice(bases)
            it["def"] = r.choice(["{k} {a}", "{k} {a}/{b}", "{a} @ {k}", "{k} {a}^2", "lg(re {k} {a})",
                                  "{a} {b}", "{a}/{b}", "{p}{a} {b}", "{k} {p}{a}"]).format(
                k=r.choice([2, 3, 5, 7, 60, 1000]), a=a, b=b,
                p=next(x["name"] for x in items if x["t"] == "prefix"))
            if "@" not in it["def"] and "lg" not in it["def"]:
                bases.append(w)
        items.append(it)
    return items


def sibling(r, items):
    """A system that differs from another in one or two places only: the same
    names and texts, other meanings."""
    import copy

    items = copy.deepcopy(items)
    for _ in range(r.choice([1, 1, 2])):
        it = r.choice(items[:6] if r.random() < 0.7 else [i for i in items if i["t"] == "base"])
        if it["t"] == "prefix":
            it["value"] = str(r.choice([5, 11, "1e6", "1e-3"]))
        elif it["t"] == "base":
            x = r.random()
            if x < 0.4:
                it["time"] = not it.get("time")
            elif x < 0.6:
                it["dimless"] = not it.get("dimless")
            else:
                other = [o["name"][0] for o in items if o["t"] == "base" and o is not it]
                if other:
                    it.update({"t": "def", "def": f"{r.choice([19, 23])} {r.choice(other)}"})
        else:
            a = [o["name"][0] for o in items if o["t"] == "base"] or ["m"]
            it["def"] = f"{r.choice([29, 31, 37])} {r.choice(a)}" + r.choice(["", "", " @ 4", "2"])
    return items


class C07(QueryProp):
    id = "C07"
    quick_runs = 1600
    quick_wall = 85
    thorough_runs = 30000
    phases = [Phase("warm", True, 4, 0.85), Phase("cold", False, 1, 0.15)]
    rule = (
        "2-3 small systems plus the shipped one, sharing identifiers, prefixes and query strings "
        "with different meanings, in half of the runs with the same base unit and prefix objects; 1-3 clients interleave queries to all of them, registrations (of new objects, of shared ones, of units another system handed out) and "
        "replacements in one of them, preemptions and exceptions; each answer is compared with a "
        "process in which only that system exists. Non-trivial: at least two systems were used."
    )

    def make_pool(self, gen, r, n):
        # groups: one set of systems and the operations over it
        pool = []
        for g in range(n):
            world = {"systems": {x: make_system(r, x) for x in ("A", "B", "Z")}}
            if r.random() < 0.6:
                world["systems"]["B"] = sibling(r, world["systems"]["A"])
                if r.random() < 0.5:
                    # filled in another order
                    r.shuffle(world["systems"]["B"])
            qs = []
            for _ in range(6):
                qs.append(r.choice(QUERIES).format(a=r.choice(WORDS + SYMS), b=r.choice(WORDS + SYMS),
                                                   p=r.choice(PFX)[0]))
            ops = []
            for s in ("A", "B"):
                own = [i["name"][0] for i in world["systems"][s] if i["t"] == "base"]
                for _ in range(2):
                    a = [*(r.sample(own, 2) if len(own) > 1 else own * 2), r.choice(WORDS)]
                    if r.random() < 0.4:
                        r.shuffle(a)
                    q = r.choice(["{0}/{1}", "{0} {1}^2", "{0}.{1}/{2}", "{2} {0}-1 {1}"]).format(*a)
                    ops.append({"o": "unit", "s": s, "q": q, "w": r.choice([["print"], ["dim", "print"], ["exp", "print"]])})
            # what they differ in, asked of both
            mine, theirs = ({i["name"] if i["t"] == "prefix" else i["name"][0]: i for i in world["systems"][x]}
                            for x in "AB")
            differ = [n for n in mine if n in theirs and mine[n] != theirs[n]]
            ps = [n for n in mine if n in theirs and mine[n]["t"] == "prefix"]
            us = [n for n in mine if n in theirs and mine[n]["t"] != "prefix"]
            for n in r.sample(differ, min(2, len(differ))):
                if mine[n]["t"] == "prefix":
                    q = n + r.choice(us or WORDS)
                else:
                    q = r.choice([n, r.choice(ps or ["kilo"]) + n, r.choice(ps or ["kilo"]) + n])
                    q += r.choice(["", "", " @ 3"])
                w = ["flags", "exp", "dim", "print"]
                ops += [{"o": "unit", "s": x, "q": q, "w": w} for x in "AB"]
            focus = list(ops)
            for q in qs:
                for s in ("A", "B", "db"):
                    x = r.random()
                    if x < 0.55:
                        ops.append({"o": "unit", "s": s, "q": q, "w": ["str", "exp"]})
                    elif x < 0.65:
                        ops.append({"o": "unit", "s": s, "q": q, "w": ["flags", "exp", "dim", "print"]})
                    elif x < 0.75:
                        ops.append({"o": "hobs", "s": s, "h": q, "w": ["str", "exp"]})
                    elif x < 0.83:
                        ops.append({"o": "eq", "s": s, "a": q, "b": r.choice(qs)})
                    elif x < 0.92:
                        ops.append({"o": "conv", "s": s, "a": q, "b": r.choice(WORDS), "v": [["f", 1.5]]})
                    else:
                        ops.append({"o": "compat", "s": s, "a": q, "b": r.choice(qs)})
            # the same asked of systems that come and go
            passing = []
            A = world["systems"]["A"]
            for _ in range(4):
                q = r.choice([i["name"] for i in A if i["t"] == "prefix"]) + r.choice(
                    [i["name"][0] for i in A if i["t"] != "prefix"])
                if r.random() < 0.3:
                    q = r.choice(qs)
                passing += [{"o": "passing", "s": x, "gc": r.random() < 0.7,
                             "op": {"o": "unit", "s": x, "q": q, "w": ["str", "exp"]}} for x in "AB"]
            pool.append({"o": "group", "world": world, "ops": ops, "focus": focus, "passing": passing})
        return pool

    def establish(self, ctx, group):
        kept = []
        for op in group["ops"]:
            try:
                ctx.profile(op, self.only(group["world"], op))
                kept.append(op)
            except HarnessError:
                pass
        if len(kept) < 6:
            raise HarnessError("too few reference answers")
        group["ops"] = kept
        group["focus"] = [o for o in group["focus"] if o in kept]

    @staticmethod
    def only(world, op):
        s = op.get("s", "db")
        return {"systems": {s: world["systems"][s]}} if s != "db" else None

    def world(self, op):
        return None

    def scenario(self, r, pool, ctx, phase):
        g = r.choice(pool)
        world, ops = g["world"], g["ops"]
        if r.random() < 0.5:
            # the same base units and prefixes, as objects, in every system
            world = {**world, "share": True}
        if g["passing"] and r.random() < 0.15:
            return self.passing(r, g, world, ctx)
        nt = r.choice([1, 1, 2, 3])
        most = g["focus"] if g["focus"] and r.random() < 0.35 else ops
        threads = [[r.choice(most if r.random() < 0.8 else ops)
                    for _ in range(r.choice([3, 5, 8] if nt == 1 else [1, 2, 4]))]
                   for _ in range(nt)]
        # registrations in Z, which nobody's answers are compared for
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            t = r.choice(threads)
            w, s = r.choice(WORDS), r.choice(SYMS)
            if r.random() < 0.25:
                n, ps = r.choice(PFX)
                item = {"t": "prefix", "name": n, "value": "13", "symbols": [ps]}
            else:
                item = {"t": r.choice(["def", "base"]), "name": [w, w + "s"], "symbols": [s],
                        "def": f"{r.choice([11, 13, 17])} {r.choice(WORDS)}"}
            if r.random() < 0.25:
                t.insert(r.randrange(len(t) + 1),
                         {"o": "adopt", "s": "Z", "from": r.choice(["A", "B", "db"]), "q": r.choice([w, s])})
            elif r.random() < 0.4:
                # something the others have too
                item = r.choice([i for i in world["systems"]["A"] + world["systems"]["B"]
                                 if i["t"] in ("base", "prefix")])
            t.insert(r.randrange(len(t) + 1), {"o": "add", "s": "Z", "item": item, "replace": r.random() < 0.8})
            if r.random() < 0.6:
                t.append({"o": "unit", "s": "Z", "q": r.choice([w, s, "kilo" + w]), "w": ["str", "exp"]})
        if r.random() < 0.1:
            t = r.choice(threads)
            t.insert(r.randrange(len(t) + 1), {"o": "pad", "s": "Z", "at": 0, "n": r.choice([20, 70, 140, 300]),
                                               "base": r.choice(WORDS), "ask": []})
        if world.get("share"):
            for _ in range(r.choice([0, 1, 2, 3])):
                # a definition made for another system
                t = r.choice(threads)
                x = r.choice("AB")
                q = r.choice([i["name"][0] for i in world["systems"][x] if i["t"] == "def"] or WORDS)
                at = r.randrange(len(t) + 1)
                t[at:at] = [{"o": "lend", "s": "Z", "from": x, "q": q},
                            {"o": "unit", "s": "Z", "q": r.choice([q, "2 " + q]), "w": ["str", "exp"]}]
                t.append(r.choice([o for o in ops if o.get("s") == x and q in str(o)] or ops))

        prof = _WorldCtx(ctx, self, world)
        plan = plan_switches(r, threads, prof, None, r.choice([1, 2, 3])) if nt > 1 else []
        if r.random() < 0.4:
            plan += plan_excs(r, threads, prof, None, r.choice([1, 2]), sorted(EXC))
        if r.random() < 0.3:
            # ... or within one another
            plan += plan_nests(r, threads, prof, None, r.choice([1, 2]), ops)
        audit = r.sample(ops, min(len(ops), 4))
        return {"world": world, "threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def passing(self, r, g, world, ctx):
        """Systems made, asked and thrown away, one after another, where the next may
        take their place in memory."""
        nt = r.choice([1, 1, 2])
        threads = [[r.choice(g["passing"]) for _ in range(r.choice([6, 12, 24]))] for _ in range(nt)]
        for t in threads:
            for _ in range(r.choice([0, 1, 3])):
                t.insert(r.randrange(len(t) + 1), r.choice(g["ops"]))
        prof = _WorldCtx(ctx, self, world)
        plan = plan_switches(r, threads, prof, None, r.choice([1, 2, 3])) if nt > 1 else []
        if r.random() < 0.3:
            plan += plan_excs(r, threads, prof, None, 1, sorted(EXC))
        audit = r.sample(g["ops"], min(len(g["ops"]), 2)) + r.sample(g["passing"], min(len(g["passing"]), 3))
        return {"world": world, "threads": threads, "plan": plan, "first": 0, "audit": audit}

    def refs_for(self, sc, ctx, op):
        return ctx.ref(op, self.only(sc["world"], op))

    def check(self, sc, out, ctx):
        hist = [h for h in out["hist"] if sc["threads"][h[0]][h[1]].get("s") != "Z"]
        return super().check(sc, {**out, "hist": hist}, ctx)

    def nontrivial(self, sc, out):
        used = {op.get("s", "db") for t in sc["threads"] for op in t}
        return len(used) > 1

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        n = sum(1 for t in sc["threads"] for o in t if o["o"] in ("add", "adopt", "lend"))
        if n:
            k["registration in another system"] = n
        n = sum(1 for t in sc["threads"] for o in t if o["o"] == "passing")
        if n:
            k["system made and thrown away"] = n
        if sc["world"].get("share"):
            k["base units and prefixes shared between systems"] = 1
        return k


class _WorldCtx:
    """Profiles for planning: registrations have none worth aiming at."""

    def __init__(self, ctx, prop, world):
        self.ctx, self.prop, self.w = ctx, prop, world

    def profile(self, op, world=None):
        if op["o"] == "passing":
            op = op["op"]
        if op["o"] in ("adopt", "lend"):
            return self.ctx.profile(op, {"systems": {x: self.w["systems"][x] for x in ("A", "B", "Z")}})
        if op["o"] == "add" or op.get("s") == "Z":
            return self.ctx.profile(op, {"systems": {"Z": self.w["systems"]["Z"]}})
        return self.ctx.profile(op, self.prop.only(self.w, op))


PROP = C07()
