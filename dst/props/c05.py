"""C05: loading the shipped database under storage faults."""
import gc
import os

from .. import iofault, sim as _sim
from ..base import Phase, QueryProp, plan_excs, plan_switches
from ..harness import Violation
from ..sim import EXC

#: what open(2) and read(2) fail with
OPEN_ERR = [2, 13, 24, 23, 5, 12, 116, 4, 40]
READ_ERR = [5, 5, 4, 11, 12, 116, 110, 21]
CODESETS = ["", "", "", "ANSI_X3.4-1968", "ISO-8859-1", "ISO-8859-15", "KOI8-R", "CP1252", "UTF-8"]


class C05(QueryProp):
    id = "C05"
    quick_runs = 4000
    thorough_runs = 60000
    phases = [Phase("warm", True, 40, 0.7), Phase("virgin", True, 40, 0.3)]
    virgin = True
    rule = (
        "1-2 clients load the shipped database 1-3 times while the simulated storage fails opens and "
        "reads, cuts the file short, zeroes blocks or returns a few bytes at a time, with the "
        "locale's code set varied, exceptions at line events of the loader and preemptions between "
        "concurrent loads and queries; then the file is made unreachable, every loaded system and the "
        "one loaded before the run are examined (completely, where a lossy fault had struck a load "
        "that succeeded), open files are counted, and a fault-free load must succeed. In phase "
        "'virgin' the run's loads are the first of their process. Non-trivial: "
        "a storage fault, exception or preemption took place."
    )
    real = ["pyudunits2 loader and registry", "lxml", "CPython I/O stack", "the shipped file"]
    stub = ["read(2)/open(2)/fread(3) results on the database file (LD_PRELOAD fault plan)",
            "nl_langinfo(CODESET)", "thread scheduler", "threading locks"]

    def worker_env(self, scratch):
        return iofault.env(scratch)

    def make_pool(self, gen, r, n):
        db = gen.db
        ents = db.entries[-6:] + r.sample(db.entries, 20) + db.entries[:2]
        names = [n for e in ents for n in e.all]
        pool = [{"o": "name", "q": n, "w": ["str", "exp"]} for n in r.sample(names, min(len(names), n))]
        tail = [n for e in db.entries[-3:] for n in e.all]
        pool += [{"o": "name", "q": n, "w": ["str", "exp"]} for n in tail]
        for p, syms in r.sample(db.prefixes, 6) + [db.prefixes[-1], db.prefixes[0]]:
            for x in [p] + list(syms):
                pool.append({"o": "name", "q": x + r.choice(["meter", "second", "gram"]), "w": ["str", "exp"]})
        pool.append({"o": "name", "q": "nosuchunitatall", "w": ["str"]})
        return pool

    def prepare_zygote(self, phase):
        from ..db import Db

        db = Db()
        self.full = [{"o": "name", "q": n, "w": ["str", "exp"]} for e in db.entries for n in e.all] + [
            {"o": "name", "q": x + "meter", "w": ["str", "exp"]} for p, syms in db.prefixes for x in [p] + list(syms)]

    LOAD = {"o": "load", "audit": []}

    def scenario(self, r, pool, ctx, phase):
        nl = r.choice([1, 1, 1, 2, 3])
        nt = r.choice([1, 1, 1, 2])
        threads = [[] for _ in range(nt)]
        for k in range(nl):
            threads[k % nt].append({**self.LOAD, "slot": f"L{k}"})
        virgin = phase.name == "virgin"
        if nt > 1 and r.random() < 0.5 and not virgin:
            threads[1] += [r.choice(pool) for _ in range(r.choice([1, 2]))]
            r.shuffle(threads[1])
        io = []
        reads = self.reads(ctx)
        if r.random() < 0.3:
            size = r.choice([1, 7, 64, 100, 512, 1000, 4095, 4096])
            if size < 64:
                # a one-byte file system for a stretch only
                for n in range(r.choice([1, 2, 5, 20])):
                    io.append(["r", r.randint(1, reads + 3), "short", size])
            else:
                io.append(["r", 0, "short", size])
                reads = 120_000 // size
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            x = r.random()
            nth = r.choice([1, 2, reads, reads + 1, reads - 1]) if r.random() < 0.4 else r.randint(1, reads * nl + 1)
            nth = max(1, nth)
            if x < 0.15:
                io.append(["o", r.choice([1, 1, 2, 3]), f"E{r.choice(OPEN_ERR)}", 0])
            elif x < 0.5:
                io.append(["r", nth, f"E{r.choice(READ_ERR)}", 0])
            elif x < 0.75:
                io.append(["r", nth, "eof", 0])
            elif x < 0.9:
                io.append(["r", nth, "zero", r.choice([0, 1, 17, 300])])
            else:
                # fewer bytes than there are, then the end of the file
                io.append(["r", nth, "short", r.choice([1, 10, 333])])
                io.append(["r", nth + 1, "eof", 0])
        # the more specific fault first: the shim takes the first that matches
        io.sort(key=lambda f: f[1] == 0)
        plan = []
        prof = ProfCtx(self, ctx)
        if r.random() < 0.3 or not io:
            plan += plan_excs(r, threads, prof, None, r.choice([1, 1, 2]), sorted(EXC))
        if nt > 1:
            plan += plan_switches(r, threads, prof, None, r.choice([1, 2, 4]))
        audit = r.sample(pool, min(12, len(pool)))
        return {"threads": threads, "plan": plan, "first": r.randrange(nt), "io": io,
                "codeset": r.choice(CODESETS), "audit": audit, "virgin": virgin}

    def reads(self, ctx):
        if not hasattr(ctx, "nreads"):
            def count():
                from ..world import World

                L = iofault.lib()
                L.dst_set(b"")
                World().execute(self.LOAD)
                return L.dst_count(ord("r"))
            from ..harness import fork_call

            ctx.nreads = max(1, fork_call(count)[1])
        return ctx.nreads

    @staticmethod
    def fds():
        out = []
        for n in os.listdir("/proc/self/fd"):
            try:
                out.append(os.readlink("/proc/self/fd/" + n))
            except OSError:
                pass
        return sorted(x for x in out if not x.startswith("/proc/"))

    def run(self, sc, limit=None):
        from ..world import World

        if limit is not None:
            limit += 3_000_000 * sum(len(t) for t in sc["threads"])
        W = World()
        L = iofault.lib()
        fds0 = self.fds()
        L.dst_codeset(sc["codeset"].encode())
        L.dst_set(iofault.text(sc["io"]).encode())
        s = _sim.Sim(lambda t, i, op: W.execute(op), sc["threads"], sc["plan"], limit=limit)
        s.run(sc.get("first", 0))
        io = [L.dst_fired(i) for i in range(len(sc["io"]))]
        L.dst_off()
        out = {"hist": s.history, "fired": s.fired, "nested": s.nested, "dead": s.dead,
               "clock": s.clock, "io": io}
        if s.dead:
            return out
        gc.collect()
        out["fds"] = [x for x in self.fds() if x not in fds0]
        # from here on the file is out of reach
        L.dst_set(b"o:0:E2:0;r:0:E5:0")
        struck = any(n and iofault.lossy(f) for n, f in zip(io, sc["io"])) or bool(s.fired)
        slots = sorted(k for k in W.systems if k != "db")
        out["slots"] = {}
        full = self.full if struck else None
        for slot in slots:
            ops = sc["audit"]
            if full and any(n and iofault.lossy(f) for n, f in zip(io, sc["io"])):
                ops = sc["audit"] + full
            out["slots"][slot] = [[op["q"], W.execute({**op, "s": slot})] for op in ops]
        if not sc["virgin"]:
            out["slots"]["db"] = [[op["q"], W.execute(op)] for op in sc["audit"]]
        L.dst_off()
        out["later"] = W.execute({**self.LOAD, "slot": "later"})
        L.dst_codeset(b"")
        if out["later"][0] == "ok":
            out["slots"]["later"] = [[op["q"], W.execute({**op, "s": "later"})] for op in sc["audit"]]
        return out

    def establish(self, ctx, op):
        ctx.profile(op)

    def refs_for(self, sc, ctx, op):
        return ctx.ref(op)

    def check(self, sc, out, ctx):
        if out["dead"]:
            return Violation("stuck", {"what": out["dead"]})
        cut = {}
        for i in out["fired"]:
            d = sc["plan"][i]
            if d["act"][0] == "exc":
                cut.setdefault((d["t"], d["op"]), set()).add(d["act"][1])
        lossy = [f for n, f in zip(out["io"], sc["io"]) if n and iofault.lossy(f)]
        loaded = set()
        for t, i, t0, t1, got in out["hist"]:
            op = sc["threads"][t][i]
            if op["o"] == "load":
                if got[0] == "ok":
                    loaded.add(op["slot"])
                elif not lossy and got[1] not in cut.get((t, i), ()):
                    return Violation(f"load-failed:{got[1]}", {"op": op, "got": got, "io": sc["io"], "codeset": sc["codeset"]})
                continue
            want = ctx.ref(op)
            if got != want and got[1] not in cut.get((t, i), ()):
                return Violation("wrong-answer-beside-a-load", {"op": op, "got": got, "expected": want})
        if out["fds"]:
            return Violation("file-left-open", {"open": out["fds"], "io": sc["io"]})
        if out["later"][0] != "ok":
            return Violation("later-load-fails", {"got": out["later"], "io": sc["io"]})
        missing = loaded - set(out["slots"])
        if missing:
            return Violation("loaded-nothing", {"slots": sorted(missing)})
        for slot, rows in out["slots"].items():
            for q, got in rows:
                want = ctx.ref({"o": "name", "q": q, "w": ["str"] if q == "nosuchunitatall" else ["str", "exp"]})
                if got != want:
                    what = {"db": "earlier-system-changed", "later": "later-load-differs"}.get(slot, "incomplete-system")
                    return Violation(what, {"name": q, "slot": slot, "got": got, "expected": want, "io": sc["io"]})
        return None

    def nontrivial(self, sc, out):
        return bool(out["fired"]) or any(out["io"])

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        for n, f in zip(out["io"], sc["io"]):
            if n:
                name = {"o": "open ", "r": "read "}[f[0]] + {"E": "error"}.get(f[2][0], f[2])
                if f[2] == "eof":
                    name = "read premature end"
                if f[2] == "zero":
                    name = "read zeroed block"
                k[name] = k.get(name, 0) + n
        if sc["codeset"]:
            k["locale code set " + sc["codeset"]] = k.get("locale code set " + sc["codeset"], 0) + 1
        return k

    def signature(self, sc, out):
        from ..rng import digest

        return digest([sc["threads"], [sc["plan"][i] for i in out["fired"]],
                       [f for n, f in zip(out["io"], sc["io"]) if n], sc["codeset"]])

    def ops_done(self, sc, out):
        return len(out["hist"]) + sum(len(v) for v in out.get("slots", {}).values())


class ProfCtx:
    """Profiles of loads are shared by all of them."""

    def __init__(self, prop, ctx):
        self.prop, self.ctx = prop, ctx

    def profile(self, op, world=None):
        if op["o"] == "load":
            op = self.prop.LOAD
        return self.ctx.profile(op)


PROP = C05()
