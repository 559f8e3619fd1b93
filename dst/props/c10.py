"""C10: units and converters once obtained never change."""
from .. import model
from ..base import plan_excs, plan_switches
from ..harness import Violation
from ..sim import EXC
from .registry import (PREFIXES, VALUES, RegistryProp, Vocabulary, base_items, fresh_names, make_def, read_value,
                       subset_names)


class C10(RegistryProp):
    id = "C10"
    quick_runs = 4000
    thorough_runs = 90000
    rule = (
        "clients obtain units (plain, prefixed, compound, shifted, logarithmic, dates) and "
        "converters, the registry is then changed under them (replacements of what they were made "
        "from, prefixes re-registered, other lookups, failures, exceptions, preemptions) or discarded, and they "
        "are examined for the first time only afterwards, repeatedly; the value must be one the "
        "model allows at the time of obtaining, and constant. Non-trivial: a registration happened "
        "between obtaining and examining an object."
    )

    def scenario(self, r, pool, ctx, phase):
        v = Vocabulary(r)
        units = [make_def(r, v, fresh_names(r, v), 0) for _ in range(r.choice([1, 2]))]
        # a chain: units defined through the first ones
        chain = []
        for _ in range(r.choice([0, 1, 2])):
            if not v.words:
                break
            it = fresh_names(r, v)
            dep = r.choice([i for u in units for _, i in model.item_names(u)])
            it["t"], k = "def", str(v.k())
            it["term"] = {"k": k, "f": [[dep, 1]]}
            it["def"] = f"{k} {dep}"
            chain.append(it)
        prefixes = [{"t": "prefix", "name": n, "value": str(v.k()), "symbols": list(s)}
                    for n, s in r.sample(PREFIXES, r.choice([0, 1, 2]))]
        world = {"systems": {"A": base_items() + prefixes + units + chain}}
        pn = [x for p in prefixes for x in [p["name"]] + p["symbols"]]
        idents = [n for u in units + chain for _, n in model.item_names(u)]

        nt = r.choice([1, 1, 1, 2])
        threads = [[] for _ in range(nt)]
        slots = []
        nslots = r.choice([1, 2, 3])
        for s in range(nslots):
            a, b = r.choice(idents), r.choice(idents)
            x = r.random()
            pa = [r.choice(pn), a] if pn and r.random() < 0.35 else a
            qa = pa if isinstance(pa, str) else pa[0] + pa[1]
            slot = f"u{s}"
            if x < 0.45:
                op = {"o": "take", "q": qa, "term": {"k": "1", "f": [[pa, 1]]}, "kind": "exp"}
            elif x < 0.62:
                op = {"o": "take", "q": f"{qa} {b}", "term": {"k": "1", "f": [[pa, 1], [b, 1]]}, "kind": "exp"}
            elif x < 0.74:
                k = str(r.choice([2, 60, 1000]))
                op = {"o": "take", "q": f"{k} {qa}", "term": {"k": k, "f": [[pa, 1]]}, "kind": "exp"}
            elif x < 0.86:
                # printed forms that are not plain products: constancy only
                q = r.choice(["lg(re {a})", "{a} @ 5", "{a}/{b}", "{a}^2", "ln(re 2 {a})", "({a})^3 {b}-1"])
                op = {"o": "take", "q": q.format(a=qa, b=b), "term": None, "kind": "const"}
            else:
                op = {"o": "takec", "a": qa, "b": b, "term": None, "kind": "conv"}
            op["s"], op["slot"] = "A", slot
            slots.append(op)
            threads[0].append(op)
        adds, again = [], []
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if x < 0.7:
                src = r.choice(units + chain)
                it = make_def(r, v, subset_names(r, src) if r.random() < 0.5 else
                              {k: src[k] for k in ("name", "symbols", "aliases", "alias_symbols") if k in src})
                adds.append({"o": "add", "s": "A", "item": it, "replace": True})
            elif x < 0.9 and prefixes:
                adds.append({"o": "add", "s": "A", "item": {**r.choice(prefixes), "value": str(v.k())}})
            elif v.words:
                adds.append({"o": "add", "s": "A", "item": make_def(r, v, fresh_names(r, v))})
        for a in adds:
            t = r.choice(threads)
            t.insert(r.randrange(len(t) + 1) if r.random() < 0.35 else len(t), a)
            if r.random() < 0.5:
                t.append({"o": "unit", "s": "A", "q": r.choice(idents), "w": ["exp"]})
            if r.random() < 0.5:
                # the very same is asked again
                op = r.choice(slots)
                if r.random() < 0.5 and t is threads[0]:
                    again.append({**op, "slot": f"v{len(again)}"})
                    t.append(again[-1])
                elif op["o"] == "take":
                    t.append({"o": "unit", "s": "A", "q": op["q"], "w": r.choice([["exp"], ["exp", "str"]])})
                else:
                    t.append({"o": "conv", "s": "A", "a": op["a"], "b": op["b"], "v": [["f", 1.0]]})
            if r.random() < 0.15:
                t.append({"o": "unit", "s": "A", "q": r.choice(["xyzzy", "m^", "nope/mark"]), "w": ["exp"]})
        looks = []
        for op in slots + again:
            if op["kind"] == "conv":
                lk = {"o": "lookc", "slot": op["slot"], "v": 1.0}
            else:
                w = r.choice([["exp"], ["exp"], ["exp", "str", "flags"]])
                if r.random() < 0.1:
                    w = ["exp", "str", "dim"]
                lk = {"o": "look", "slot": op["slot"], "w": w}
            looks.append(lk)
            if r.random() < 0.5 and op in slots:
                threads[0].append(lk)
        self.pads(r, threads)
        plan = []
        prof = self.profile_ops(r, ctx, world, None)
        if nt > 1:
            plan += plan_switches(r, threads, prof, None, r.choice([1, 2, 4]))
        if r.random() < 0.3:
            plan += plan_excs(r, threads, prof, None, r.choice([1, 2]), sorted(EXC))
        audit = looks + [{"o": "unit", "s": "A", "q": i, "w": ["exp"]} for i in r.sample(idents, min(3, len(idents)))]
        if nt == 1 and r.random() < 0.2:
            # what was obtained outlives the system
            audit = [{"o": "drop", "s": "A"}] + looks
        audit += r.sample(looks, len(looks))
        return {"world": world, "threads": threads, "plan": plan, "first": 0, "audit": audit}

    def check(self, sc, out, ctx):
        bad = self.stuck(out)
        if bad:
            return bad
        rows = self.ops_of(sc, out)
        bad = self.bad_pad(rows)
        if bad:
            return bad
        rows = [x for x in rows if x[0]["o"] != "pad"]
        ever = {}  # identifier -> [(start, term | Fraction)]
        events = {}  # identifier -> writes with direct values

        def put(item, t0, t1, sure):
            kind = "w" if sure else "m"
            if item["t"] == "prefix":
                for n in [item["name"]] + item["symbols"]:
                    events.setdefault("p:" + n, []).append((t0, t1, kind, key_of(model.Fraction(item["value"]))))
                return
            term = item.get("term") or {"k": "1", "f": [[item["name"][0], 1]]}
            for _, n in model.item_names(item):
                events.setdefault(n, []).append((t0, t1, kind, key_of(term)))

        store = {}

        def key_of(x):
            k = str(x)
            store[k] = x
            return k

        for it in sc["world"]["systems"]["A"]:
            put(it, -2, -1, True)
        for op, got, t0, t1, cut in rows:
            if op["o"] == "add":
                if got[0] != "ok" and not cut:
                    return Violation(f"registration-failed:{got[1]}", {"op": op, "got": got})
                put(op["item"], t0, t1, not cut)

        def candidates(term, t0, t1, exact=True, depth=0):
            """What a term obtained within [t0, t1] may have meant."""
            vals = {model.Fraction(term["k"])}
            for name, e in term["f"]:
                for n in ([name] if isinstance(name, str) else ["p:" + name[0], name[1]]):
                    ev = events.get(n, ())
                    if exact:
                        poss = model.possible(ev, None, t0, t1)
                    else:
                        poss = {x[3] for x in ev if x[0] <= t1}
                    new = set()
                    for p in poss:
                        if p is None:
                            continue
                        d = store[p]
                        if isinstance(d, model.Fraction):
                            subs = {d}
                        elif d["f"] and d["f"][0][0] in VALUES and all(f[0] in ("mark", "tone") for f in d["f"]):
                            subs = {model.term_value(d, VALUES.get)}
                        elif d["k"] == "1" and d["f"] == [[n, 1]] or (len(d["f"]) == 1 and d["f"][0][0] in VALUES
                                                                      and d["k"] == "1"):
                            subs = {VALUES[d["f"][0][0]]}
                        elif depth < 6:
                            # bound when first used, at the latest now
                            subs = candidates(d, t0, t1, False, depth + 1)
                        else:
                            subs = set()
                        for a in vals:
                            for s in subs:
                                new.add(a * s ** e)
                    vals = new
            return vals

        taken = {}
        for op, got, t0, t1, cut in rows:
            if op["o"] in ("take", "takec"):
                if got[0] == "ok":
                    taken[op["slot"]] = (op, t0, t1)
                elif not cut and op["o"] == "take":
                    return Violation(f"cannot-take:{got[1]}", {"op": op, "got": got})
        first = {}
        for op, got, t0, t1, cut in rows:
            if op["o"] not in ("look", "lookc") or cut:
                continue
            if op["slot"] not in taken or t0 < taken[op["slot"]][2]:
                continue
            if got[0] != "ok":
                obs = got
            elif op["o"] == "look":
                obs = got[1]
            else:
                obs = ["float", got[1]]
            k = op["slot"]
            if k in first:
                was = first[k]
                if isinstance(was, dict) and isinstance(obs, dict):
                    diff = {w for w in was if w in obs and was[w] != obs[w]}
                    if diff:
                        return Violation("changed", {"taken": taken[k][0], "first": was, "now": obs})
                    was.update(obs)
                elif was != obs:
                    return Violation("changed", {"taken": taken[k][0], "first": was, "now": obs})
                continue
            first[k] = dict(obs) if isinstance(obs, dict) else obs
            top, a, b = taken[k]
            if top["kind"] == "exp":
                seen = read_value(got)
                ok = candidates(top["term"], a, b)
                if seen[0] != "v" or seen[1] not in ok:
                    return Violation("not-what-was-obtained", {
                        "taken": top, "got": got, "allowed": sorted(map(str, ok))})
            elif top["kind"] == "const" and got[0] == "ok":
                # the factors in the printed expansion must have existed then
                later = set()
                for ev in events.values():
                    for x in ev:
                        d = store[x[3]]
                        if x[0] > b:
                            later.add(str(d) if isinstance(d, model.Fraction) else d["k"])
                import re

                nums = set(re.findall(r"\d+", got[1]["exp"])) & (later - {"1", "2", "3", "5"})
                if nums:
                    return Violation("made-of-later-definitions", {"taken": top, "got": got, "later": sorted(nums)})
            elif top["kind"] == "conv" and got[0] == "ok":
                pa, pb = self.parse_pair(top, sc)
                ca, cb = candidates(pa, a, b), candidates(pb, a, b)
                if not any(abs(float(x / y) - got[1]) <= 1e-9 * abs(float(x / y))
                           or abs(float(1 / (x * y)) - got[1]) <= 1e-9 * abs(float(1 / (x * y)))
                           for x in self.strip(ca) for y in self.strip(cb)):
                    return Violation("converter-changed", {"taken": top, "got": got})
        return None

    @staticmethod
    def strip(vals):
        """Remove the base units' primes: only the factor enters a conversion."""
        out = set()
        for v in vals:
            for p in VALUES.values():
                while v.numerator % p == 0:
                    v /= p
                while v.denominator % p == 0:
                    v *= p
            out.add(v)
        return out

    @staticmethod
    def parse_pair(op, sc):
        pn = [x for it in sc["world"]["systems"]["A"] if it["t"] == "prefix" for x in [it["name"]] + it["symbols"]]
        out = []
        for q in (op["a"], op["b"]):
            f = q
            for p in sorted(pn, key=len, reverse=True):
                if q.startswith(p):
                    f = [p, q[len(p):]]
                    break
            out.append({"k": "1", "f": [[f, 1]]})
        return out

    def nontrivial(self, sc, out):
        order = [sc["threads"][h[0]][h[1]]["o"] for h in out["hist"]]
        return any(o in ("take", "takec") for o in order) and "add" in order


PROP = C10()
