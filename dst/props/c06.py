"""C06: the command line under failing output, failing storage and interruptions."""
import codecs
import io as _io
import os
import re
import subprocess
import sys

from .. import iofault, loader, sim as _sim
from ..base import Phase, QueryProp, plan_excs
from ..harness import Violation, fork_call, key
from ..sim import EXC
from ..world import ADDRESS
from .c05 import OPEN_ERR, READ_ERR

WRITE_ERR = [28, 32, 5, 27, 122, 9, 11]
STDOUT_ENC = ["utf-8", "utf-8", "utf-8", "ascii", "latin-1", "utf-16"]


class Exited(BaseException):
    """os._exit was called: the process is gone, with what it had buffered."""

    def __init__(self, code):
        self.code = code


def _exit(code):
    raise Exited(code)


class C06(QueryProp):
    id = "C06"
    quick_runs = 6000
    thorough_runs = 90000
    phases = [Phase("emulated", True, 28, 0.97), Phase("real", True, 8, 0.03)]
    rule = (
        "one command-line run (explain-unit, conversion-expr, debug-parser, convert, bad usage) whose "
        "writes to standard output fail, run short, fill the disk or find the pipe closed from a seeded "
        "call on, or which has no standard output at all, whose reads of the database fail or run short, or which is struck by an exception at a "
        "seeded line event, under full or line buffering and several encodings. Exit status "
        "and delivered bytes are compared with the fault-free run. In phase 'real' the run is a real "
        "interpreter process. Non-trivial: a fault or exception took place."
    )
    real = ["pyudunits2 command line", "argparse", "CPython text and buffered I/O", "lxml", "sympy",
            "phase real: the whole interpreter, its start-up and exit"]
    stub = ["write(2) on descriptor 1 and read(2)/open(2) of the database (LD_PRELOAD fault plan)",
            "phase emulated: interpreter exit (status from the exception, 120 if the last flush fails)"]

    def worker_env(self, scratch):
        return iofault.env(scratch)

    def make_pool(self, gen, r, n):
        pool = []
        db = gen.db
        many = [e.all[0] for e in db.entries if e.all]
        for _ in range(n):
            x = r.random()
            if x < 0.45:
                q = gen.query() if r.random() < 0.6 else gen.ident()
                args = ["explain-unit", q]
            elif x < 0.75:
                a, b = gen.pair()
                args = ["conversion-expr", a, b]
            elif x < 0.9:
                # many lines, so that several writes happen
                q = " ".join(r.choice(["m", "s", "kg", "2", "*", "/", "furlong"]) for _ in range(r.choice([3, 40, 1500])))
                args = ["debug-parser", r.choice([gen.query(), q])]
            elif x < 0.93:
                args = ["convert", "5", gen.ident(), gen.ident()]
            elif x < 0.97:
                args = ["explain-unit", r.choice(["nosuchunit", "m^", "((", "m nosuch", r.choice(many)])]
            else:
                args = r.choice([[], ["frobnicate"], ["explain-unit"], ["--help"], ["conversion-expr", "m"]])
            pool.append({"o": "cli", "args": args})
        return pool

    # -- one process
    def prepare_zygote(self, phase):
        self.phase = phase.name

    @staticmethod
    def status_of(e):
        if isinstance(e, SystemExit):
            if e.code is None:
                return 0
            if isinstance(e.code, int):
                return e.code & 0xFF
            return 1
        if isinstance(e, KeyboardInterrupt):
            return 130
        return 1

    def emulate(self, op, cfg, around, off=None):
        """main() as the interpreter runs it, on a real descriptor 1."""
        fd = os.memfd_create("stdout")
        keep = os.dup(1)
        os.dup2(fd, 1)
        raw = _io.FileIO(1, "w", closefd=False)
        # (CPython's unbuffered mode drops what a short write leaves over, whoever
        # prints; it is outside the statement)
        text = _io.TextIOWrapper(_io.BufferedWriter(raw), encoding=cfg["enc"],
                                 line_buffering=cfg["buf"] == "line")
        old = sys.stdout, sys.stderr, sys.argv
        sys.stdout, sys.stderr = None if cfg.get("closed") else text, _io.StringIO()
        sys.argv = [os.path.join(loader.REPO, "pyudunits2", "__main__.py")] + op["args"]
        kind = None
        gone = False
        real_exit = os._exit
        os._exit = _exit
        try:
            from pyudunits2.__main__ import main

            try:
                around(main)
                code = 0
            except (_sim.SimAbort, _sim.Deadlock, _sim.StepLimit):
                raise
            except Exited as e:
                code = e.code & 0xFF
                kind = "os._exit"
                gone = True
            except BaseException as e:  # noqa: BLE001 - what the interpreter would print
                code = self.status_of(e)
                kind = type(e).__name__
            try:
                if not gone and sys.stdout is not None:
                    sys.stdout.flush()
            except BaseException:  # noqa: BLE001
                code = 120
                kind = kind or "flush"
        finally:
            os._exit = real_exit
            sys.stdout, sys.stderr, sys.argv = old
            (off or iofault.lib().dst_off)()
            raw.close()  # what is still buffered must never reach the real output
            os.dup2(keep, 1)
            os.close(keep)
        data = b""
        os.lseek(fd, 0, 0)
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                break
            data += b
        os.close(fd)
        return [code, kind, data.hex()]

    def real_run(self, op, cfg, io):
        fd = os.memfd_create("stdout")
        env = dict(os.environ)
        env["DST_IOFAULT"] = iofault.text(io)
        env["PYTHONPATH"] = loader.REPO
        env["PYTHONIOENCODING"] = cfg["enc"]
        env["PYTHONWARNINGS"] = "ignore"
        cmd = [sys.executable, "-B", "-m", "pyudunits2"] + op["args"]
        if cfg.get("closed"):
            # as a daemon or "command >&-" starts it
            cmd = ["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + cmd
        p = subprocess.run(cmd, env=env, stdout=fd, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=40)
        os.lseek(fd, 0, 0)
        data = b""
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                break
            data += b
        os.close(fd)
        code = p.returncode if p.returncode >= 0 else 128 - p.returncode
        return [code, (p.stderr.decode(errors="replace").strip().splitlines() or [""])[-1][:200], data.hex()]

    # -- reference: fault-free
    def ref_cli(self, ctx, op, cfg):
        refs = ctx.__dict__.setdefault("cli", {})
        cfg = {k: v for k, v in cfg.items() if k != "closed"}
        k = key([op, cfg])
        if k not in refs:
            def go():
                L = iofault.lib()
                L.dst_set(b"")
                counts = {}

                def around(main):
                    try:
                        main()
                    finally:
                        counts["r"] = L.dst_count(ord("r"))

                out = self.emulate(op, cfg, around)
                counts["w"] = L.dst_count(ord("w"))
                return [out, counts]
            kind, val = fork_call(go)
            if kind != "ok":
                from ..harness import HarnessError

                raise HarnessError(f"reference run {op}: {kind} {val}")
            refs[k] = val
        return refs[k]

    def api(self, ctx, op):
        """What the library itself answers to the same question."""
        a = op["args"]
        refs = ctx.__dict__.setdefault("api", {})
        k = key(op)
        if k not in refs:
            def go():
                from pyudunits2 import Converter
                from ..world import World

                S = World.DB
                try:
                    if a[0] == "explain-unit":
                        u = S.unit(a[1])
                        return ["ok", [str(u), str(u.expanded())]] if u.dimensionality() is not None else None
                    x, y = S.unit(a[1]), S.unit(a[2])
                    return ["ok", [str(Converter(x, y).expression)]]
                except Exception as e:  # noqa: BLE001
                    return ["err", type(e).__name__]
            kind, val = fork_call(go)
            refs[k] = val if kind == "ok" else None
        return refs[k]

    def establish(self, ctx, op):
        self.ref_cli(ctx, op, {"buf": "full", "enc": "utf-8"})

    def line_profile(self, ctx, op):
        profs = ctx.__dict__.setdefault("cliprof", {})
        k = key(op)
        if k not in profs:
            cfg = {"buf": "full", "enc": "utf-8"}

            def go():
                def around(main):
                    out = []
                    sites = _sim.profile(lambda: out.append(self.quiet(main)), limit=3_000_000)[1]
                    around.sites = sites
                self.emulate(op, cfg, around)
                return sorted(around.sites.items())
            kind, val = fork_call(go)
            profs[k] = val if kind == "ok" else []
        return profs[k]

    @staticmethod
    def quiet(main):
        try:
            main()
        except BaseException as e:  # noqa: BLE001
            return type(e).__name__

    def scenario(self, r, pool, ctx, phase):
        op = r.choice(pool)
        cfg = {"buf": r.choice(["full", "full", "line"]), "enc": r.choice(STDOUT_ENC)}
        real = phase.name == "real"
        if real:
            cfg = {"buf": "full", "enc": r.choice(["utf-8", "ascii"])}
        if r.random() < (0.12 if real else 0.02):
            cfg["closed"] = True
        ref, counts = self.ref_cli(ctx, op, cfg)
        nw, nr = max(1, counts["w"]), max(1, counts["r"])
        io = []
        for _ in range(r.choice([1, 1, 1, 2, 3]) if not (r.random() < 0.1) else 0):
            x = r.random()
            nth = r.choice([1, nw, nw + 1]) if r.random() < 0.6 else r.randint(1, nw)
            if x < 0.25:
                io.append(["w", nth, "stick", r.choice(WRITE_ERR)])
            elif x < 0.4:
                io.append(["w", nth, f"E{r.choice(WRITE_ERR + [4])}", 0])
            elif x < 0.55:
                # room for a part, then full: the torn write
                io.append(["w", nth, "short", r.choice([1, 5, 20, 60])])
                io.append(["w", nth + 1, "stick", r.choice([28, 32, 5, 122])])
            elif x < 0.7:
                io.append(["w", r.choice([0, nth]), "short", r.choice([1, 3, 10, 30])])
            elif x < 0.75:
                io += [["w", nth, "E4", 0], ["w", nth + 1, "E4", 0]]
            elif x < 0.85:
                io.append(["r", 0, "short", r.choice([512, 1000, 4096])])
            elif x < 0.93:
                k = r.choice([f"E{r.choice(READ_ERR)}", "eof", "zero"])
                io.append(["r", r.randint(1, nr), k, r.choice([0, 5])])
            else:
                io.append(["o", 1, f"E{r.choice(OPEN_ERR)}", 0])
        io.sort(key=lambda f: f[1] == 0)
        plan = []
        if not real and (r.random() < 0.3 or not io):
            plan = plan_excs(r, [[op]], LineProf(self, ctx), None, r.choice([1, 1, 2]), sorted(EXC))
        return {"threads": [[op]], "plan": plan, "io": io, "cfg": cfg, "real": real, "first": 0}

    def run(self, sc, limit=None):
        op = sc["threads"][0][0]
        L = iofault.lib()
        if sc["real"]:
            got = self.real_run(op, sc["cfg"], sc["io"])
            return {"dead": None, "hist": [[0, 0, 0, 1, ["ok", got]]], "fired": [], "nested": [],
                    "clock": 0, "io": [0 if not got[0] else 1 for _ in sc["io"]]}
        res = {}

        def around(main):
            s = _sim.Sim(lambda t, i, o: self.inside(main, res), sc["threads"], sc["plan"], limit=limit)
            L.dst_set(iofault.text(sc["io"]).encode())
            s.run(0)
            res["sim"] = s
            if "exc" in res:
                raise res["exc"]

        counted = {}

        def off():
            # the last flush is part of the run
            counted["io"] = [L.dst_fired(i) for i in range(len(sc["io"]))]
            L.dst_off()

        got = self.emulate(op, sc["cfg"], around, off)
        s = res["sim"]
        return {"dead": s.dead, "hist": [[0, 0, 0, 1, ["ok", got]]], "fired": s.fired, "nested": [],
                "clock": s.clock, "io": counted["io"]}

    @staticmethod
    def inside(main, res):
        try:
            main()
        except (_sim.SimAbort, _sim.Deadlock, _sim.StepLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            res["exc"] = e
        return ["ok", None]

    @staticmethod
    def unaddressed(ref, got, enc):
        """Date units print their address: not part of the answer."""
        dec = codecs.getincrementaldecoder(enc)
        text = dec().decode(ref)
        if not ADDRESS.search(text):
            return ref, got
        pat = re.compile(r"at 0x[0-9a-fA-F]*")
        # the length of a cut address must not matter
        return tuple(pat.sub("at 0x", dec("replace").decode(b)).encode() for b in (ref, got))

    def check(self, sc, out, ctx):
        if out["dead"]:
            return Violation("stuck", {"what": out["dead"]})
        op = sc["threads"][0][0]
        (code0, kind0, hex0), _ = self.ref_cli(ctx, op, sc["cfg"])
        code, kind, hexd = out["hist"][0][4][1]
        ref, got = bytes.fromhex(hex0), bytes.fromhex(hexd)
        ref, got = self.unaddressed(ref, got, sc["cfg"]["enc"])
        d = {"args": op["args"], "io": sc["io"], "cfg": sc["cfg"], "status": code, "by": kind,
             "fault_free_status": code0, "delivered": got.decode("latin-1")[:600],
             "complete": ref.decode("latin-1")[:600], "real": sc["real"]}
        if op["args"] and op["args"][0] in ("explain-unit", "conversion-expr") and len(op["args"]) > 1:
            api = self.api(ctx, op) if len(op["args"]) == (2 if op["args"][0][0] == "e" else 3) else None
            if api:
                try:
                    text = bytes.fromhex(hex0).decode(sc["cfg"]["enc"])
                    if api[0] == "err" and code0 == 0:
                        return Violation("success-without-answer", {**d, "library": api})
                    if api[0] == "ok":
                        # an encoding that lacks the characters is a failure that must show
                        if code0 != 0 and sc["cfg"]["enc"] not in ("ascii", "latin-1"):
                            return Violation("failure-without-fault", {**d, "library": api})
                        if code0 == 0 and any(a not in text for a in api[1] if not ADDRESS.search(a)):
                            return Violation("answer-missing", {**d, "library": api})
                except UnicodeDecodeError:
                    pass
        if not ref.startswith(got):
            return Violation("output-not-a-prefix", d)
        if code == 0 and (got != ref or code0 != 0):
            return Violation("success-with-partial-output", d)
        if sc["real"]:
            lossy = any(iofault.lossy(f) for f in sc["io"])
        else:
            lossy = any(n and iofault.lossy(f) for n, f in zip(out["io"], sc["io"]))
        if not lossy and not out["fired"] and not sc["cfg"].get("closed") and (code != code0 or got != ref):
            return Violation("lossless-fault-changed-the-run", d)
        return None

    def nontrivial(self, sc, out):
        return bool(out["fired"]) or any(out["io"]) or (sc["real"] and bool(sc["io"])) or "closed" in sc["cfg"]

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        if sc["cfg"].get("closed"):
            k["started without a standard output"] = 1
        for n, f in zip(out["io"], sc["io"]):
            if n:
                what = {"w": "write ", "r": "read ", "o": "open "}[f[0]]
                what += {"stick": "fails from here on", "E4": "interrupted", "eof": "premature end",
                         "zero": "zeroed block"}.get(f[2], "short" if f[2] == "short" else "error")
                if sc["real"]:
                    what = "planned for a real process: " + what
                    n = 1
                k[what] = k.get(what, 0) + n
        return k

    def signature(self, sc, out):
        from ..rng import digest

        return digest([sc["threads"], [sc["plan"][i] for i in out["fired"]], sc["cfg"], sc["real"],
                       [f for n, f in zip(out["io"], sc["io"]) if n or sc["real"]]])

    def ops_done(self, sc, out):
        return 1


class LineProf:
    def __init__(self, prop, ctx):
        self.prop, self.ctx = prop, ctx

    def profile(self, op, world=None):
        return self.prop.line_profile(self.ctx, op)


PROP = C06()
