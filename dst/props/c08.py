"""C08: registration is visible at once, per name, and all readers agree."""
from .. import model
from ..base import plan_excs, plan_nests, plan_switches
from ..harness import Violation
from ..sim import EXC
from .registry import (PREFIXES, VALUES, RegistryProp, Vocabulary, base_items, fresh_names, make_def, read_value,
                       subset_names)


class C08(RegistryProp):
    id = "C08"
    quick_runs = 4000
    thorough_runs = 90000
    rule = (
        "1-3 clients register, replace (wholly or some names only), and try rejected registrations "
        "of units and prefixes while others look names up, directly, prefixed and in compound "
        "expressions, under seeded preemptions, exceptions and nested calls; the history is checked "
        "per identifier for linearizability against an independent registry model with rational "
        "arithmetic. Non-trivial: at least one registration and one other operation ran."
    )
    stub = QueryPropStub = ["thread scheduler", "threading locks", "reference registry (model.py) is the oracle"]

    def scenario(self, r, pool, ctx, phase):
        v = Vocabulary(r)
        units = [make_def(r, v, fresh_names(r, v), 0) for _ in range(r.choice([1, 2, 3]))]
        focus = r.random() < 0.2  # prefixes come and go while prefixed names are looked up
        prefixes = []
        for n, syms in r.sample(PREFIXES, r.choice([2, 3]) if focus else r.choice([0, 1, 2])):
            prefixes.append({"t": "prefix", "name": n, "value": str(v.k()), "symbols": list(syms)})
        world = {"systems": {"A": base_items() + prefixes + units}}
        idents = [n for u in units for _, n in model.item_names(u)]
        # registrations of the run
        adds = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random() if not focus else 0.85 + 0.15 * r.random()
            if x < 0.55:
                it = make_def(r, v, subset_names(r, r.choice(units)))
                if r.random() < 0.3 and v.words:
                    extra = fresh_names(r, v)
                    for k in extra:
                        it.setdefault(k, extra[k])
                    if it["t"] == "base":
                        it["term"] = {"k": "1", "f": [[it["name"][0], 1]]}
                adds.append({"o": "add", "s": "A", "item": it, "replace": True, "expect": "ok"})
            elif x < 0.72 and v.words:
                it = make_def(r, v, fresh_names(r, v))
                adds.append({"o": "add", "s": "A", "item": it, "replace": r.random() < 0.3, "expect": "ok"})
            elif x < 0.88 and v.words:
                # rejected: something it names is taken
                names = fresh_names(r, v)
                u = r.choice(units)
                opts = ["name"] + (["plural"] if len(u["name"]) > 1 else []) + (["symbol"] if u.get("symbols") else [])
                how = r.choice(opts)
                if how == "name":
                    names["name"] = [u["name"][0]] + names["name"][1:]
                elif how == "plural":
                    names["name"] = [names["name"][0], u["name"][1]]
                else:
                    names["symbols"] = [s for s in names.get("symbols", [])] + [u["symbols"][0]]
                it = make_def(r, v, names, 0)
                adds.append({"o": "add", "s": "A", "item": it, "replace": False, "expect": "rejected"})
            elif prefixes and x < 0.94:
                p = r.choice(prefixes)
                adds.append({"o": "add", "s": "A", "expect": "ok",
                             "item": {**p, "value": str(v.k())}})
            else:
                n, syms = r.choice(PREFIXES)
                adds.append({"o": "add", "s": "A", "expect": "ok",
                             "item": {"t": "prefix", "name": n, "value": str(v.k()), "symbols": list(syms)}})
        for a in adds:
            if a["item"]["t"] != "prefix":
                idents += [n for _, n in model.item_names(a["item"])]
        idents = sorted(set(idents))
        pnames = sorted({x for p in PREFIXES for x in (p[0],) + p[1]})

        def read():
            x = r.random() if not focus else 0.5 + 0.3 * r.random()
            a, b = r.choice(idents), r.choice(idents)
            if x < 0.42:
                t, q = {"k": "1", "f": [[a, 1]]}, a
            elif x < 0.55:
                return {"o": "name", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}}
            elif x < 0.75:
                p = r.choice(pnames)
                q = p + a
                t = {"k": "1", "f": [[[p, a], 1]]}
                if r.random() < 0.4:
                    return {"o": "name", "s": "A", "q": q, "w": ["exp"], "term": t}
            elif x < 0.88:
                t = {"k": "1", "f": [[a, 1], [b, 1]]}
                q = r.choice(["{a} {b}", "{a}*{b}", "{a}.{b}"]).format(a=a, b=b)
            else:
                k = r.choice([2, 9, 100])
                t, q = {"k": str(k), "f": [[a, 1]]}, f"{k} {a}"
            return {"o": "unit", "s": "A", "q": q, "w": ["exp"], "term": t}

        nt = r.choice([1, 1, 2, 2, 3])
        threads = [[] for _ in range(nt)]
        for a in adds:
            threads[r.randrange(nt) if r.random() < 0.4 else 0].append(a)
        for t in threads:
            for _ in range(r.choice([1, 2, 4, 6])):
                t.insert(r.randrange(len(t) + 1), read())
        self.pads(r, threads)
        plan = []
        prof = self.profile_ops(r, ctx, world, None)
        if nt > 1:
            plan += plan_switches(r, threads, prof, None, r.choice([1, 2, 3, 5]))
        if r.random() < 0.35:
            plan += plan_excs(r, threads, prof, None, r.choice([1, 1, 2]), sorted(EXC))
            # aim one at a registration
            where = [(t, i) for t, ops in enumerate(threads) for i, o in enumerate(ops) if o["o"] == "add"]
            if where and r.random() < 0.6:
                t, i = r.choice(where)
                from ..base import choose_site

                c = choose_site(r, prof.profile(threads[t][i]), 0.0)
                if c:
                    plan.append({"t": t, "op": i, "site": c[0], "occ": c[1], "act": ["exc", r.choice(sorted(EXC))]})
        if r.random() < 0.25:
            cand = [read(), read()]
            if v.words and v.ks:
                it = make_def(r, v, subset_names(r, r.choice(units)))
                cand.append({"o": "add", "s": "A", "item": it, "replace": True, "expect": "ok"})
            plan += plan_nests(r, threads, prof, None, 1, cand)
        audit = []
        order = idents[:]
        r.shuffle(order)
        for a in order:
            audit.append({"o": "unit", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}})
        order = order[::-1] if r.random() < 0.5 else order
        for a in order[:6]:
            audit.append({"o": "name", "s": "A", "q": a, "w": ["exp"], "term": {"k": "1", "f": [[a, 1]]}})
        for p in pnames[:2]:
            audit.append({"o": "unit", "s": "A", "q": p + order[0], "w": ["exp"],
                          "term": {"k": "1", "f": [[[p, order[0]], 1]]}})
        return {"world": world, "threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def check(self, sc, out, ctx):
        bad = self.stuck(out)
        if bad:
            return bad
        rows = self.ops_of(sc, out)
        bad = self.bad_pad(rows)
        if bad:
            return bad
        rows = [x for x in rows if x[0]["o"] != "pad"]
        initial = {}
        for it in sc["world"]["systems"]["A"]:
            self.writes(it, lambda n, val: initial.__setitem__(n, val))
        events = {}  # identifier -> [(t0, t1, kind, value)]
        for op, got, t0, t1, cut in rows:
            if op["o"] != "add":
                continue
            if op["expect"] == "rejected":
                if not cut and not (got[0] == "err" and got[1] == "ValueError"):
                    return Violation("rejection-missing", {"op": op, "got": got})
                continue
            if not cut and got[0] != "ok":
                return Violation(f"registration-failed:{got[1]}", {"op": op, "got": got})
            kind = "m" if cut else "w"
            self.writes(op["item"], lambda n, val: events.setdefault(n, []).append((t0, t1, kind, val)))
        for op, got, t0, t1, cut in rows:
            if op["o"] == "add" or cut:
                continue
            seen = read_value(got)
            if seen[0] == "bad":
                return Violation("unreadable-answer", {"op": op, "got": got})
            val = seen[1] if seen[0] == "v" else None
            f = op["term"]["f"]
            if f == [[f[0][0], 1]] and isinstance(f[0][0], str) and op["term"]["k"] == "1":
                events.setdefault(f[0][0], []).append((t0, t1, "r", val))
                ok = self.allowed(op["term"], events, initial, t0, t1)
            else:
                ok = self.allowed(op["term"], events, initial, t0, t1)
            if val not in ok:
                return Violation("wrong-meaning", {
                    "op": op, "got": got, "value": str(val), "allowed": sorted(map(str, ok))})
        for n, ev in events.items():
            if len(ev) <= 40 and not model.linearizable(ev, initial.get(n)):
                return Violation("not-linearizable", {"identifier": n, "initial": str(initial.get(n)),
                                                      "history": [[a, b, c, str(d)] for a, b, c, d in ev]})
        return None

    @staticmethod
    def writes(item, put):
        if item["t"] == "prefix":
            val = model.Fraction(item["value"])
            for n in [item["name"]] + item["symbols"]:
                put("p:" + n, val)
            return
        term = item.get("term") or {"k": "1", "f": [[item["name"][0], 1]]}
        val = model.term_value(term, VALUES.get)
        for _, n in model.item_names(item):
            put(n, val)

    @staticmethod
    def allowed(term, events, initial, t0, t1):
        """Values the term may have, given what each identifier may mean meanwhile."""
        vals = {model.Fraction(term["k"])}
        for name, e in term["f"]:
            parts = [name] if isinstance(name, str) else ["p:" + name[0], name[1]]
            for n in parts:
                poss = model.possible(events.get(n, ()), initial.get(n), t0, t1)
                new = set()
                for a in vals:
                    for b in poss:
                        new.add(None if a is None or b is None else a * b ** e)
                vals = new
        return vals


PROP = C08()
