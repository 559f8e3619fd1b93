"""C09: definitions bind late."""
from .. import model
from ..base import plan_excs, plan_nests, plan_switches
from ..harness import Violation
from ..sim import EXC
from .registry import PREFIXES, VALUES, RegistryProp, Vocabulary, base_items, fresh_names, read_value

BADDEFS = ["{a}^", "(({a}", "{a}//{b}", "$", "{a} since 2000-01-01 {b}", "lg({a})", "{a}^{b}", "{a} {b}^^2"]


class C09(RegistryProp):
    id = "C09"
    quick_runs = 4000
    thorough_runs = 90000
    rule = (
        "a registry is filled in random order with definitions that depend on each other (directly, "
        "through aliases and prefixes, in chains, some malformed or cyclic, cycles sometimes repaired "
        "by replacement) while 1-2 clients keep looking everything up, with preemptions, exceptions "
        "and nested lookups; a model says what is resolvable at each moment. Non-trivial: at least "
        "one lookup that had to fail and one registration, or everything registered in random order before the first look-up."
    )

    def late(self, r, ctx):
        """Units that wait for one unit while the others they are made of are
        redefined: nothing half-found on the way may survive."""
        v = Vocabulary(r)
        alphas = [fresh_names(r, v) for _ in range(r.choice([1, 2, 3]))]
        lates = [fresh_names(r, v) for _ in range(r.choice([1, 1, 2]))]
        prods = [fresh_names(r, v) for _ in range(r.choice([1, 2, 2]))]
        pfx = [{"t": "prefix", "name": p, "value": str(v.k()), "symbols": list(s)}
               for p, s in r.sample(PREFIXES, r.choice([0, 1, 1]))]
        pnames = [x for p in pfx for x in [p["name"]] + p["symbols"]]

        def ident(names):
            return r.choice([i for _, i in model.item_names(names)])

        def make(names, f, sep=" "):
            term = {"k": str(v.k()), "f": f}
            text = [term["k"]] + [a if isinstance(a, str) else a[0] + a[1] for a, _ in f]
            return {**names, "t": "def", "term": term, "def": sep.join(text)}

        def alpha(names):
            return {"o": "add", "s": "A", "item": make(names, [[r.choice(["mark", "tone"]), 1]])}

        first = [alpha(n) for n in alphas]
        deps = []
        for names in prods:
            f = []
            for n in r.sample(alphas, r.choice([1, min(2, len(alphas))])):
                a = ident(n)
                f.append([[r.choice(pnames), a] if pnames and r.random() < 0.3 else a, 1])
            for n in r.sample(lates, r.choice([1, len(lates)])):
                f.append([ident(n), 1])
            r.shuffle(f)
            deps.append({"o": "add", "s": "A", "item": make(names, f, r.choice([" ", "*", "."]))})
        second = []
        for n in alphas:
            for _ in range(r.choice([0, 1, 1, 2])):
                second.append({**alpha(n), "replace": True})
        r.shuffle(second)
        last = [alpha(n) for n in lates]
        idents = [i for n in prods for _, i in model.item_names(n)]
        others = [i for n in alphas + lates for _, i in model.item_names(n)]

        def read(p=0.75):
            a = r.choice(idents) if r.random() < p else r.choice(others)
            t, q = {"k": "1", "f": [[a, 1]]}, a
            if pnames and r.random() < 0.2:
                x = r.choice(pnames)
                t, q = {"k": "1", "f": [[[x, a], 1]]}, x + a
            return {"o": "name" if r.random() < 0.2 else "unit", "s": "A", "q": q, "w": ["exp"], "term": t}

        head = first + deps
        r.shuffle(head)
        ops = head + [read() for _ in range(r.choice([1, 2, 3]))]
        for x in second:
            ops.append(x)
            if r.random() < 0.6:
                ops.append(read())
        if len(last) == 2 and r.random() < 0.5:
            ops += [last[0], read(), last[1]]
        else:
            ops += last
        ops += [read() for _ in range(r.choice([2, 4]))]
        self.pads(r, [ops])
        world = {"systems": {"A": base_items() + pfx}}
        prof = self.profile_ops(r, ctx, world, None)
        plan = []
        if r.random() < 0.4:
            ex = plan_excs(r, [ops], prof, None, r.choice([1, 2]), sorted(EXC))
            plan += [d for d in ex if ops[d["op"]]["o"] not in ("add", "pad")]
        audit = [{"o": "unit", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}}
                 for a in r.sample(idents, min(len(idents), 5))]
        return {"world": world, "threads": [ops], "plan": plan, "first": 0, "audit": audit}

    def tangle(self, r, ctx):
        """Several clients enter one cycle of definitions at different places."""
        v = Vocabulary(r)
        n = r.choice([2, 2, 3])
        named = [fresh_names(r, v) for _ in range(n + 1)]

        def ident(names):
            return r.choice([i for _, i in model.item_names(names)])

        items = []
        for i, names in enumerate(named):
            j = (i + 1) % n if i < n else r.randrange(n)
            f = [[ident(named[j]), 1]]
            if r.random() < 0.4:
                f.insert(r.randrange(2), [r.choice(["mark", "tone"]), 1])
            k = str(v.k())
            items.append({**names, "t": "def", "term": {"k": k, "f": f}, "def": " ".join([k] + [a for a, _ in f])})
        world = {"systems": {"A": base_items() + items}, "stack": r.choice([250, 300, 400])}

        def read(names):
            a = ident(names)
            return {"o": "name" if r.random() < 0.2 else "unit", "s": "A", "q": a, "w": ["exp"],
                    "term": {"k": "1", "f": [[a, 1]]}}

        nt = r.choice([2, 2, 3])
        threads = [[read(r.choice(named)) for _ in range(r.choice([1, 1, 2]))] for _ in range(nt)]
        prof = self.profile_ops(r, ctx, world, None)
        plan = plan_switches(r, threads, prof, None, r.choice([2, 3, 5]))
        for t in range(nt):
            # someone else starts when one is at the first members of the cycle
            i = r.randrange(len(threads[t]))
            core = [x for x in prof.profile(threads[t][i]) if "_unit_system" in x[0]]
            for _ in range(r.choice([0, 1, 1])):
                site, m = r.choice(core)
                plan.append({"t": t, "op": i, "site": site, "occ": r.randint(1, min(m, 3)),
                             "act": ["sw", (t + r.randrange(1, nt)) % nt]})
        if r.random() < 0.4:
            k = str(v.k())
            it = {**named[0], "t": "def", "term": {"k": k, "f": [["mark", 1]]}, "def": k + " mark"}
            threads[r.randrange(nt)] += [{"o": "add", "s": "A", "item": it, "replace": True}, read(named[1])]
        audit = [{"o": "unit", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}}
                 for names in named for a in [ident(names)]]
        ring = [i for names in named[:n] for _, i in model.item_names(names)]
        return {"world": world, "threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit,
                "ring": ring}

    def settled(self, r, ctx):
        """Nothing is asked until everything is there: the order in which it
        came cannot matter, also where a unit's own name could be read as a
        prefix and another unit."""
        v = Vocabulary(r)
        items, known = [], []
        pfx = [{"t": "prefix", "name": p, "value": str(v.k()), "symbols": list(s)}
               for p, s in r.sample(PREFIXES, r.choice([1, 2]))]
        pnames = [x for p in pfx for x in [p["name"]] + p["symbols"]]

        def ident(names):
            return r.choice([i for _, i in model.item_names(names)])

        def add(names, f, bare=0.4):
            k = "1" if len(f) == 1 and r.random() < bare else str(v.k())
            text = [a if isinstance(a, str) else a[0] + a[1] for a, _ in f]
            text = ([] if k == "1" else [k]) + text
            items.append({**names, "t": "def", "term": {"k": k, "f": f}, "def": r.choice([" ", "*", "."]).join(text)})
            known.extend(i for _, i in model.item_names(names))

        for _ in range(r.choice([1, 2])):
            add(fresh_names(r, v), [[r.choice(["mark", "tone"]), 1]])
        plain = known[:]
        rivals = []
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice(pnames) + r.choice(plain)
            if n not in known:
                rivals.append(n)
                add({"name": [n]}, [[r.choice(["mark", "tone"]), 1]], 0.1)
        for _ in range(r.choice([1, 2, 3])):
            f = [[r.choice(rivals) if rivals and r.random() < 0.6 else r.choice(known), 1]]
            if r.random() < 0.3:
                f.append([r.choice(known), 1])
            elif r.random() < 0.2:
                p, a = r.choice(pnames), r.choice(plain)
                if p + a not in known:
                    f[0] = [[p, a], 1]
            add(fresh_names(r, v), f)
        bases = base_items()
        early = [b for b in bases if r.random() < 0.5]
        adds = [{"o": "add", "s": "A", "item": it} for it in items + pfx + [b for b in bases if b not in early]]
        r.shuffle(adds)
        nt = r.choice([1, 1, 2])
        threads = [[] for _ in range(nt)]
        for a in adds:
            r.choice(threads).append(a)
        self.pads(r, threads, asked=False)
        world = {"systems": {"A": early}}
        plan = plan_switches(r, threads, self.profile_ops(r, ctx, world, None), None, 3) if nt > 1 else []
        audit = [{"o": r.choice(["unit", "unit", "name"]), "s": "A", "q": a, "w": ["exp"],
                  "term": {"k": "1", "f": [[a, 1]]}} for a in r.sample(known, min(len(known), 8))]
        return {"world": world, "threads": threads, "plan": plan, "first": 0, "audit": audit}

    def scenario(self, r, pool, ctx, phase):
        x = r.random()
        if x < 0.25:
            return self.late(r, ctx)
        if x > 0.93:
            return self.settled(r, ctx)
        if x < 0.31:
            return self.tangle(r, ctx)
        v = Vocabulary(r)
        nt = r.choice([1, 1, 1, 2])
        repair = nt == 1 and r.random() < 0.35
        items = []
        n = r.choice([2, 3, 4, 5])
        named = [fresh_names(r, v) for _ in range(n)]
        pfx = [{"t": "prefix", "name": p, "value": str(v.k()), "symbols": list(s)}
               for p, s in r.sample(PREFIXES, r.choice([0, 1, 1, 2]))]
        pnames = [x for p in pfx for x in [p["name"]] + p["symbols"]]

        def ident(names):
            return r.choice([i for _, i in model.item_names(names)])

        cyc = None
        if r.random() < 0.45 and n >= 2:
            cyc = sorted(r.sample(range(n), r.choice([1, 2]) if n > 2 else 2))
        for i, names in enumerate(named):
            it = dict(names)
            it["t"] = "def"
            f = []
            x = r.random()
            deps = list(range(i))
            if cyc and i in cyc:
                j = cyc[(cyc.index(i) + 1) % len(cyc)]
                f = [[ident(named[j]), 1]]
            elif deps and x < 0.75:
                for j in r.sample(deps, min(len(deps), r.choice([1, 1, 2]))):
                    f.append([ident(named[j]), 1])
                if r.random() < 0.3:
                    f.append([r.choice(["mark", "tone"]), 1])
            elif x < 0.82:
                f = [["never_there", 1]]
            else:
                f = [[r.choice(["mark", "tone"]), 1]]
            if pnames and r.random() < 0.35 and f[0][0] not in ("never_there",):
                f[0] = [[r.choice(pnames), f[0][0]], 1]
            term = {"k": str(v.k()), "f": f}
            it["term"] = term
            text = [term["k"]] + [a if isinstance(a, str) else a[0] + a[1] for a, _ in f]
            it["def"] = r.choice([" ", "*", "."]).join(text)
            if r.random() < 0.08:
                it["def"] = r.choice(BADDEFS).format(a="mark", b="tone")
                it["term"] = None
            items.append(it)
        # everything, base units included, arrives in random order
        adds = [{"o": "add", "s": "A", "item": it} for it in items + pfx]
        bases = base_items()
        early = [b for b in bases if r.random() < 0.5]
        adds += [{"o": "add", "s": "A", "item": b} for b in bases if b not in early]
        r.shuffle(adds)
        idents = [i for names in named for _, i in model.item_names(names)]

        def read():
            x = r.random()
            a, b = r.choice(idents), r.choice(idents)
            if x < 0.6 or not pnames:
                t, q = {"k": "1", "f": [[a, 1]]}, a
            elif x < 0.85:
                p = r.choice(pnames)
                t, q = {"k": "1", "f": [[[p, a], 1]]}, p + a
            else:
                t, q = {"k": "1", "f": [[a, 1], [b, 1]]}, f"{a} {b}"
            return {"o": "name" if r.random() < 0.2 and " " not in q else "unit", "s": "A", "q": q,
                    "w": ["exp"], "term": t}

        threads = [[] for _ in range(nt)]
        for a in adds:
            t = threads[0] if r.random() < 0.85 else r.choice(threads)
            t.append(a)
        for t in threads:
            for _ in range(r.choice([2, 4, 8])):
                t.insert(r.randrange(len(t) + 1), read())
        if repair:
            # give an identifier that never resolved a definition that does
            cand = cyc or [i for i, it in enumerate(items)
                           if it["term"] is None or any(a == "never_there" for a, _ in it["term"]["f"])]
            if cand:
                i = r.choice(list(cand))
                k = str(v.k())
                it = {**named[i], "t": "def", "term": {"k": k, "f": [["mark", 1]]}, "def": k + " mark"}
                threads[0].append({"o": "add", "s": "A", "item": it, "replace": True})
                threads[0] += [read() for _ in range(3)]
        self.pads(r, threads, asked=False)
        world = {"systems": {"A": early}}
        if cyc:
            world["stack"] = r.choice([300, 500, 1000])
        prof = self.profile_ops(r, ctx, world, None)
        full = {**world, "systems": {"A": bases + pfx + [i for i in items if i["term"] and cyc is None]}}
        prof = self.profile_ops(r, ctx, full, None) if r.random() < 0.5 else prof
        plan = []
        if nt > 1:
            plan += plan_switches(r, threads, prof, None, r.choice([1, 2, 4]))
        if r.random() < 0.4:
            ex = plan_excs(r, threads, prof, None, r.choice([1, 2]), sorted(EXC))
            plan += [d for d in ex if threads[d["t"]][d["op"]]["o"] not in ("add", "pad")]
        if r.random() < 0.15:
            plan += plan_nests(r, threads, prof, None, 1, [read(), read()])
        audit = [{"o": "unit", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}}
                 for a in r.sample(idents, min(len(idents), 6))]
        return {"world": world, "threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def check(self, sc, out, ctx):
        bad = self.stuck(out)
        if bad:
            return bad
        rows = self.ops_of(sc, out)
        bad = self.bad_pad(rows)
        if bad:
            return bad
        rows = [x for x in rows if x[0]["o"] != "pad"]
        defs = {}  # identifier -> [(t0, t1, definition)]

        def put(item, t0, t1):
            if item["t"] == "prefix":
                for n in [item["name"]] + item["symbols"]:
                    defs.setdefault("p:" + n, []).append((t0, t1, model.Fraction(item["value"])))
                return
            for _, n in model.item_names(item):
                d = VALUES[item["name"][0]] if item["t"] == "base" else item
                defs.setdefault(n, []).append((t0, t1, d))

        for it in sc["world"]["systems"]["A"]:
            put(it, -2, -1)
        for op, got, t0, t1, cut in rows:
            if op["o"] == "add":
                if got[0] != "ok":
                    return Violation(f"registration-failed:{got[1]}", {"op": op, "got": got})
                put(op["item"], t0, t1)

        def value(term, at_end, t, seen=()):
            """-> (Fraction | None, reasons)"""
            if term is None:
                return None, {"bad"}
            val, why = model.Fraction(term["k"]), set()
            for name, e in term["f"]:
                for n in ([name] if isinstance(name, str) else ["p:" + name[0], name[1]]):
                    ver = [d for d in defs.get(n, ()) if (d[0] <= t if at_end else d[1] < t)]
                    if not ver:
                        why.add("missing")
                        continue
                    d = max(ver, key=lambda x: x[0])[2]
                    if isinstance(d, model.Fraction):
                        x, w = d, set()
                    elif n in seen:
                        x, w = None, {"cycle"}
                    else:
                        x, w = value(d["term"], at_end, t, seen + tuple(i for _, i in model.item_names(d)))
                    why |= w
                    if x is None:
                        val = None
                    elif val is not None:
                        val *= x
            return (None if why else val), why

        mends = [(t0, t1) for op, _, t0, t1, _ in rows if op["o"] == "add"] if sc.get("ring") else []
        ring = sc.get("ring", ())

        def during(t0, t1):
            return any(t0 < b and a < t1 for a, b in mends)

        def mixed(op, t0, t1):
            """May an answer be made of old and new definitions?  Yes while the
            cycle is being mended (per identifier, old or new), and what is
            outside of the cycle may then be bound to what it saw."""
            if not mends:
                return False
            me = op["term"]["f"][0][0]
            return during(t0, t1) or me not in ring and any(
                o["o"] != "add" and o["term"]["f"][0][0] not in ring and during(u0, u1)
                for o, _, u0, u1, _ in rows)

        for op, got, t0, t1, cut in rows:
            if op["o"] == "add" or cut or mixed(op, t0, t1):
                continue
            a, wa = value(op["term"], False, t0)
            b, wb = value(op["term"], True, t1)
            if got[0] == "ok":
                seen = read_value(got)
                if seen[0] != "v" or seen[1] not in (a, b) or seen[1] is None:
                    return Violation("wrong-value" if (a, b) != (None, None) else "resolved-too-early",
                                     {"op": op, "got": got, "expected": [str(a), str(b)]})
                continue
            if a is not None and b is not None:
                return Violation(f"resolvable-but-failed:{got[1]}", {"op": op, "got": got, "expected": str(a)})
            why = wa | wb
            if why == {"missing"} and got[1] != "UnresolvableUnitException":
                return Violation(f"wrong-error:{got[1]}", {"op": op, "got": got})
            if got[1] in ("Deadlock", "StepLimit"):
                return Violation("stuck", {"op": op, "got": got})
        return None

    def nontrivial(self, sc, out):
        if any(h[4][0] == "err" for h in out["hist"]):
            return super().nontrivial(sc, out)
        # all in any order, then all asked
        return all(o["o"] in ("add", "pad") for t in sc["threads"] for o in t) and len(sc["audit"]) > 2


PROP = C09()
