"""C17: copies and pickles mean the same."""
from .. import moving
from ..base import Phase, plan_excs, plan_nests, plan_switches
from ..harness import Violation
from ..rng import digest
from ..sim import EXC
from .c01 import C01
from .c07 import PFX, SYMS, WORDS


#: names the database does not know
FRESH = [("zorka", "zka"), ("zorla", "zla"), ("zorma", "zma")]
FRESH_PREFIX = {"t": "prefix", "name": "zorb", "value": "13", "symbols": ["zo"]}


class C17(C01):
    id = "C17"
    quick_runs = 4000
    thorough_runs = 60000
    phases = [Phase("warm", True, 48, 0.7), Phase("cold", False, 10, 0.15), Phase("aged", True, 0, 0.15, True)]
    stub = C01.stub + ["the transport between processes (a socket)"]
    rule = (
        "1-3 clients; while queries are under way (preempted, cut short, or copied from inside another query), "
        "unit systems, units, converters and errors are deep-copied, shallow-copied (units), or pickled "
        "(protocols 2-5, and the Python pickler with preemption inside it) and read back here or in another "
        "process with other hash randomisation, locale and zone, from where systems may come back; copies and "
        "copies of copies are asked, and registered in. Answers are compared with a pristine process. "
        "Non-trivial: something was moved."
    )

    def prepare_zygote(self, phase):
        moving.register_std()
        moving.start_other()

    def make_pool(self, gen, r, n):
        pool = []
        while len(pool) < n:
            x = r.random()
            if x < 0.35:
                pool += gen.cluster()
            elif x < 0.5:
                pool += gen.family()[:4]
            elif x < 0.7:
                pool.append(gen.op(cheap=0.6))
            elif x < 0.9:
                pool.append(gen.hop())
            else:
                a, b = gen.pair()
                pool.append({"o": "hcvt", "c": [a, b], "v": ["f", 2.5]})
        return pool[:n]

    @staticmethod
    def plain(op):
        return not ("h" in op or "c" in op or op["o"] in ("parse", "load", "flood", "gc", "nop"))

    def moved(self, r, near, pool, clones):
        """An operation that moves something, mostly something in use."""
        def some(want):
            for _ in range(20):
                o = r.choice(near) if r.random() < 0.8 else r.choice(pool)
                if want(o):
                    return o
            return None

        via = r.choice(moving.VIAS)
        to = "other" if r.random() < 0.35 else "here"
        x = r.random()
        if x < 0.4:
            op = some(lambda o: "h" in o or "c" in o)
            if op:
                if "c" in op:
                    to, via = "here", r.choice(["copy", "deepcopy"])
                elif to == "here" and r.random() < 0.2:
                    via = "copy"
                which = r.choice(["h", "h2", "both"]) if "h2" in op and to == "here" else "both"
                if op["o"] == "heq" and ("since" in op["h"] + op["h2"] or "@" in op["h"] + op["h2"]
                                         or " from " in op["h"] + op["h2"]):
                    # a date unit equals nothing but itself
                    return {"o": "carry", "via": via, "to": to, "which": which, "whole": r.random() < 0.5,
                            "op": {"o": "hobs", "h": op["h"], "w": ["str", "exp"]}}
                return {"o": "carry", "via": via, "to": to, "which": which, "whole": r.random() < 0.5, "op": op}
        if x < 0.5:
            bad = some(self.plain)
            if bad:
                return {"o": "errcopy", "via": via, "to": to, "op": bad}
        if x < 0.75:
            ops = [o for o in (some(self.plain) for _ in range(r.choice([1, 2, 4]))) if o]
            if ops:
                got = {"o": "send", "via": via if via != "deepcopy" else "pypickle", "ops": ops}
                if r.random() < 0.3:
                    got["slot"] = f"M{len(clones)}"
                    clones.append(got["slot"])
                return got
        s = f"M{len(clones)}"
        got = {"o": "clone", "from": r.choice(["db", "db"] + clones), "s": s, "via": via}
        clones.append(s)
        return got

    def scenario(self, r, pool, ctx, phase):
        base = r.randrange(len(pool))
        near = [pool[(base + k) % len(pool)] for k in range(-3, 4)]
        nt = r.choice([1, 2, 2, 3])
        clones = []
        threads = []
        for _ in range(nt):
            ops = []
            for _ in range(r.choice([2, 3, 5] if nt == 1 else [1, 2, 3])):
                x = r.random()
                if x < 0.5:
                    ops.append(self.moved(r, near, pool, clones))
                elif x < 0.75 and clones:
                    o = r.choice([o for o in near + pool[:8] if self.plain(o)] or [{"o": "unit", "q": "km", "w": ["exp"]}])
                    ops.append({"o": "on", "s": r.choice(clones), "op": o})
                else:
                    ops.append(r.choice(near) if r.random() < 0.8 else r.choice(pool))
            threads.append(ops)
        if r.random() < 0.4:
            # a copy is changed: nobody else notices
            t = r.randrange(nt)
            seq = [{"o": "clone", "from": r.choice(["db", "db"] + clones), "s": "X", "via": r.choice(moving.VIAS)}]
            plain = [o for o in near if self.plain(o)] or [{"o": "unit", "q": "km", "w": ["exp"]}]
            have = ["X"]
            new = ["meter"]
            pres = []

            def clone():
                to = f"X{len(have)}"
                seq.append({"o": "clone", "from": r.choice(have), "s": to, "via": r.choice(moving.VIAS)})
                have.append(to)

            def ask():
                o = r.choice(plain)
                if r.random() < 0.6:
                    o = about()
                seq.append({"o": "on", "s": r.choice(have), "op": o})

            def about():
                q = r.choice(["{n}", "{n}", "kilo{n}", "{n} m", "{n}/s", "zorb{n}"]).format(n=r.choice(new))
                if pres and r.random() < 0.6:
                    q = r.choice(pres) + r.choice(["meter", "gram", "kelvin", "second"])
                return {"o": "unit", "q": q, "w": ["str", "exp", "dim"]}

            for k in range(r.choice([1, 2, 3])):
                if r.random() < 0.5:
                    clone()
                x = r.random()
                if x < 0.25:
                    n, ps = r.choice(PFX)
                    pres += [n, n]
                    item = {"t": "prefix", "name": n, "value": "13", "symbols": [ps]}
                elif x < 0.4:
                    item = FRESH_PREFIX
                    pres += ["zorb", "zo"]
                else:
                    w, s = (r.choice(WORDS), r.choice(SYMS)) if x < 0.55 else FRESH[k]
                    item = {"t": r.choice(["def", "def", "base"]), "name": [w, w + "s"], "symbols": [s],
                            "def": f"{r.choice([11, 13, 17])} {r.choice(WORDS)}"}
                    new += [w, s]
                seq.append({"o": "add", "s": r.choice(have), "item": item, "replace": True})
                if r.random() < 0.5:
                    ask()
                if r.random() < 0.5:
                    to = f"X{len(have)}"
                    seq.append({"o": "alike", "s": r.choice(have), "to": to, "via": r.choice(moving.VIAS),
                                "before": r.random() < 0.7, "op": about() if r.random() < 0.7 else r.choice(plain)})
                    have.append(to)
            if r.random() < 0.4:
                # what has been asked for before its definition was replaced
                (a, a2), (b, b2) = (FRESH[k][:2] for k in (0, 1))
                seq.append({"o": "add", "s": "X", "replace": True, "item": {
                    "t": r.choice(["def", "base"]), "name": [a, a + "s"], "symbols": [a2],
                    "def": f"{r.choice([2, 3])} " + r.choice(["meter", "gram", "newton"])}})
                seq.append({"o": "add", "s": "X", "replace": True, "item": {
                    "t": "def", "name": [b, b + "s"], "symbols": [b2], "def": r.choice(["5 {0}", "{0} second", "kilo{0}"]).format(a)}})
                q = r.choice([b, "kilo" + b, "3 " + b])
                seq.append({"o": "on", "s": "X", "op": {"o": "unit", "q": q, "w": ["exp"]}})
                seq.append({"o": "add", "s": "X", "replace": True, "item": {
                    "t": r.choice(["def", "def", "base"]), "name": [a, a + "s"], "symbols": [a2],
                    "def": f"{r.choice([7, 11])} " + r.choice(["meter", "gram", "newton"])}})
                seq.append({"o": "alike", "s": "X", "to": "Y", "via": r.choice(moving.VIAS),
                            "before": r.random() < 0.7, "op": {"o": "unit", "q": r.choice([q, b]), "w": ["exp", "dim"]}})
                have.append("Y")
            if r.random() < 0.5:
                clone()
            for _ in range(r.choice([1, 2, 3])):
                ask()
            seq.append(about() if pres or r.random() < 0.5 else r.choice(plain))
            # (this client's own operations may follow or come in between)
            at = r.randrange(len(threads[t]) + 1)
            threads[t][at:at] = seq
        prof = _Profiles(ctx)
        plan = []
        if nt > 1:
            plan += plan_switches(r, threads, prof, None, r.choice([1, 2, 3, 5]))
        if r.random() < 0.3:
            plan += plan_excs(r, threads, prof, None, r.choice([1, 2]), sorted(EXC))
        if r.random() < 0.35:
            nests = [self.moved(r, near, pool, []) for _ in range(3)] + near
            nests = [{**o, "s": "N"} if o["o"] == "clone" else {k: v for k, v in o.items() if k != "slot"} for o in nests]
            for o in nests:
                if o["o"] == "clone":
                    o["from"] = "db"
            plan += plan_nests(r, threads, prof, None, r.choice([1, 2]), nests)
        used = [o for t in threads for o in t if o["o"] not in ("add", "clone", "send", "on", "alike")]
        audit = r.sample(used, min(len(used), 3)) + [r.choice(near)]
        if clones and r.random() < 0.6:
            o = [o for o in near if self.plain(o)]
            if o:
                audit.append({"o": "on", "s": r.choice(clones), "op": r.choice(o)})
        return {"threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def refs_for(self, sc, ctx, op):
        k = op["o"]
        if k == "clone":
            return ["ok", "copied"]
        if k == "alike":
            return ["ok", "alike"]
        if k == "on" and op.get("items"):
            return ["ok", ctx.ref({"o": "extended", "items": op["items"], "op": op["op"]})]
        if k in ("carry", "errcopy", "on"):
            return ["ok", ctx.ref(op["op"])]
        if k == "send":
            return ["ok", [ctx.ref(o) for o in op["ops"]]]
        return ctx.ref(op)

    @staticmethod
    def registered(sc, out):
        """What had been registered in the copy each operation is about: only
        names new to it, or None if others (what a unit then means depends on
        which had been resolved before)."""
        got = {}
        for t, ops in enumerate(sc["threads"]):
            mine = {}
            end = {h[1]: h[4] for h in out["hist"] if h[0] == t}
            for i, op in enumerate(ops):
                if op["o"] == "clone" and end.get(i, [None])[0] == "ok":
                    mine[op["s"]] = mine.get(op["from"], [])
                elif op["o"] == "add" and mine.get(op["s"]) is not None:
                    item = op["item"]
                    fresh = item["name"] == "zorb" or item["name"][0].startswith("zor")
                    fresh = fresh and all(item["name"] != o["name"] for o in mine[op["s"]])
                    mine[op["s"]] = mine[op["s"]] + [item] if fresh and end.get(i, [None])[0] == "ok" else None
                elif op["o"] == "alike" and end.get(i, [None])[0] == "ok":
                    mine[op["to"]] = mine.get(op["s"], [])
                elif op["o"] == "on" and op["s"] in mine:
                    got[t, i] = mine[op["s"]]
        return got

    def check(self, sc, out, ctx):
        if not out["dead"]:
            items = self.registered(sc, out)
            threads = [[{**o, "items": items[t, i]} if items.get((t, i)) else o for i, o in enumerate(ops)]
                       for t, ops in enumerate(sc["threads"])]

            def judged(t, i, op, got):
                # An operation on a copy whose making was cut short, or is
                # still to come, finds nothing.
                return not (op["o"] == "add" or op["o"] in ("on", "alike") and got == ["ok", None]
                            or op["o"] == "clone" and got[:2] == ["err", "KeyError"] and op["from"] != "db"
                            or items.get((t, i), []) is None)

            hist = [h for h in out["hist"] if judged(h[0], h[1], threads[h[0]][h[1]], h[4])]
            pairs = [(o, g) for o, g in zip(sc.get("audit", ()), out.get("audit", ())) if judged(-1, 0, o, g)]
            out = {**out, "hist": hist, "audit": [g for _, g in pairs]}
            sc = {**sc, "threads": threads, "audit": [o for o, _ in pairs]}
        v = super().check(sc, out, ctx)
        if v is not None and v.cls.partition(":")[2].split(":")[0] in ("carry", "errcopy", "on", "send", "clone", "alike"):
            op, got = v.detail["op"], v.detail["got"]
            what = got[1] if got[0] == "ok" else got
            kind = what[1] if isinstance(what, list) and what[:1] == ["err"] else "answer"
            return Violation(f"{v.cls.partition(':')[0]}:{op['o']}:{kind}", v.detail)
        return v

    def nontrivial(self, sc, out):
        done = [sc["threads"][h[0]][h[1]]["o"] for h in out["hist"]]
        done += [sc["plan"][n[2]]["act"][1]["o"] for n in out["nested"]]
        return any(o in ("clone", "carry", "send", "errcopy", "alike") for o in done)

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        for h in out["hist"]:
            op = sc["threads"][h[0]][h[1]]
            if op["o"] in ("clone", "carry", "send", "errcopy", "alike"):
                n = f"{op['o']} {op.get('to', '')}".strip()
                k[n] = k.get(n, 0) + 1
        return k


class _Profiles:
    """What is asked of a copy has the profile of what is asked."""

    def __init__(self, ctx):
        self.ctx = ctx

    def profile(self, op, world=None):
        if op["o"] in ("on", "errcopy"):
            op = op["op"]
        elif op["o"] == "carry" and int(digest(op)[:2], 16) % 4:
            # (making a profile is the expensive part of a run)
            op = op["op"]
        elif op["o"] == "send":
            op = {"o": "clone", "from": "db", "s": "N", "via": op["via"]}
        elif op["o"] in ("add", "alike"):
            return []
        elif op["o"] == "clone":
            op = {**op, "from": "db", "s": "N"}
        return self.ctx.profile(op)


PROP = C17()
