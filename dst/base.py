"""The common shape of a property decided by running simulated clients."""
from __future__ import annotations

import dis

from . import harness, loader
from .harness import TooSlow, Violation, key
from .rng import digest
from .sim import EXC, inside


#: no pool operation takes more line events than this
MAX_STEPS = 900_000


class Phase:
    def __init__(self, name, warm, pool, share, aged=False):
        self.name = name
        self.warm = warm      # ANTLR prediction caches warmed before forking
        self.pool = pool      # number of operations in the pool
        self.share = share    # share of the runs
        self.aged = aged      # runs in a process that has a long past


def err_matches_exc(out, excs):
    return out[0] == "err" and out[1] in excs


def diff_class(op, got, want, phase):
    """A coarse name for a wrong answer; shrinking must preserve it."""
    if got[0] == "ok" and want[0] == "ok":
        return f"{phase}:{op['o']}:wrong-value"
    if got[0] == "ok":
        return f"{phase}:{op['o']}:answer-instead-of-error"
    if want[0] == "ok":
        return f"{phase}:{op['o']}:error-instead-of-answer:{got[1]}"
    return f"{phase}:{op['o']}:wrong-error:{got[1]}"


class QueryProp:
    id = None
    quick_runs = 1200
    thorough_runs = 24000
    quick_wall = 70.0
    thorough_wall = 700.0
    phases = [Phase("warm", True, 48, 0.65), Phase("cold", False, 10, 0.15), Phase("aged", True, 0, 0.2, True)]
    needs_db = True
    max_calls = 120_000
    run_timeout = harness.RUN_TIMEOUT
    shim = False
    #: some runs start before anything was loaded in the process
    virgin = False
    real = ["pyudunits2 (all of it, from /repo's working tree)", "sympy", "numpy", "lxml"]
    stub = ["thread scheduler (baton passing at line and bytecode events)",
            "threading locks (simulated, so that waiting is a scheduling decision)"]
    rule = ""
    assumptions = [
        "sympy, numpy and lxml calls are atomic: preemption and injected exceptions land in "
        "pyudunits2's own frames only",
        "preemption is decided at line and bytecode boundaries of CPython 3.12",
    ]

    # -- to override
    def make_pool(self, gen, r, n):
        return [gen.op() for _ in range(n)]

    def scenario(self, r, pool, ctx, phase):
        raise NotImplementedError

    def world(self, op):
        return None

    def age_op(self, gen, k):
        """The k-th question a process with a long past was asked."""
        r = gen.r
        x = r.random()
        if x < 0.45:
            # never asked before
            return {"o": "unit", "q": f"{k} {gen.ident()}", "w": ["str", "exp"]}
        if x < 0.9:
            return {"o": "unit", "q": gen.query(), "w": ["str", "exp"]}
        if x < 0.97:
            return {"o": "name", "q": gen.ident(), "w": ["str", "exp"]}
        a, b = r.choice([("m", "km"), ("ft", "mm"), ("s", "hour"), ("K", "degC"), ("kg", "g"), ("m", "s")])
        if x < 0.985:
            return {"o": "compat", "a": f"{k} {a}", "b": b}
        return {"o": "conv", "a": f"{k} {a}", "b": b, "v": [["f", 1.5]]}

    def establish(self, ctx, op):
        """Make sure the reference answer of a pool member exists; most of the
        operations that keep sympy busy for long are left out."""
        ctx.profile(op, self.world(op))
        slow = ctx.calls_of(op, self.world(op)) > self.max_calls
        if ctx.steps_of(op, self.world(op)) > MAX_STEPS or (
                slow and int(digest([self.id, op]), 16) % 10):
            raise TooSlow(key(op))

    def run(self, sc, limit=None):
        if limit is not None:
            limit += MAX_STEPS * (sum(len(t) for t in sc["threads"]) + len(sc.get("audit", ())))
        return harness.run_scenario(sc, limit)

    def prepare_zygote(self, phase):
        pass

    def known(self, v, sc):
        """Is this exactly a failure the known-findings file lists?"""
        return False

    # -- judging
    def refs_for(self, sc, ctx, op):
        return ctx.ref(op, sc.get("world"))

    def check(self, sc, out, ctx):
        if out["dead"]:
            d = out["dead"]
            if d.startswith("harness"):
                raise harness.HarnessError(d)
            return Violation("stuck:" + d, {"what": d})
        excs = {}
        nested = {}
        for i in out["fired"]:
            d = sc["plan"][i]
            if d["act"][0] == "exc":
                excs.setdefault((d["t"], d["op"]), set()).add(d["act"][1])
            elif d["act"][0] == "nest":
                nested[i] = d
        for t, i, t0, t1, got in out["hist"]:
            op = sc["threads"][t][i]
            want = self.refs_for(sc, ctx, op)
            if got == want:
                continue
            if err_matches_exc(got, excs.get((t, i), ())):
                continue
            return Violation(
                diff_class(op, got, want, "during"),
                {"thread": t, "index": i, "op": op, "got": got, "expected": want},
            )
        for t, i, idx, got, _, _ in out["nested"]:
            op = sc["plan"][idx]["act"][1]
            want = self.refs_for(sc, ctx, op)
            if got != want and not err_matches_exc(got, excs.get((t, inside(sc["plan"][idx].get("id"))), ())):
                return Violation(
                    diff_class(op, got, want, "nested"),
                    {"thread": t, "inside": sc["threads"][t][i] if i >= 0 else None, "op": op,
                     "got": got, "expected": want},
                )
        for op, got in zip(sc.get("audit", ()), out.get("audit", ())):
            want = self.refs_for(sc, ctx, op)
            if got != want:
                return Violation(
                    diff_class(op, got, want, "after"),
                    {"op": op, "got": got, "expected": want},
                )
        return None

    # -- what a run was
    def signature(self, sc, out):
        """Identity of the execution: who did what, where it was cut."""
        return digest(
            [sc["threads"], [sc["plan"][i] for i in out["fired"]], sc.get("world") and 1,
             sc.get("audit")]
        )

    def nontrivial(self, sc, out):
        return bool(out["fired"])

    def kinds(self, sc, out):
        k = {}
        for i in out["fired"]:
            act = sc["plan"][i]["act"]
            name = {"sw": "preemption", "exc": "exception", "nest": "reentrant call"}[act[0]]
            if act[0] == "exc":
                name = "exception " + act[1]
            k[name] = k.get(name, 0) + 1
        return k

    def sites(self, sc, out):
        return {sc["plan"][i]["site"] for i in out["fired"]}

    def ops_done(self, sc, out):
        return len(out["hist"]) + len(out["nested"]) + len(out.get("audit", ()))


# ------------------------------------------------------------------ planning
CORE_BIAS = 0.75


def split_profile(prof):
    core, antlr, inst = [], [], []
    for s, n in prof:
        grp = antlr if is_antlr(s) else core
        if s.rpartition("|")[2][0] == "I":
            inst.append((s, n))
        else:
            grp.append((s, n))
    return core, antlr, inst


STORES = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE", "DELETE_ATTR",
          "DELETE_SUBSCR", "DELETE_GLOBAL"}
MUTATORS = {"append", "add", "pop", "popitem", "update", "setdefault", "extend", "insert",
            "remove", "discard", "clear", "sort", "reverse", "appendleft", "popleft", "move_to_end",
            # the position of an open file is shared memory, too
            "seek", "lseek", "read", "readline", "readinto", "write", "tell", "truncate", "flush"}
_near = {}


def _line(x):
    return x.positions.lineno if x.positions else None


def _is_write(x):
    return x.opname in STORES or (
        x.opname in ("LOAD_ATTR", "LOAD_METHOD") and x.argval in MUTATORS)


def is_antlr(name):
    return name.startswith(("_grammar/_antlr4_runtime/", "_grammar/parser/"))


_shared = None


def shared_names():
    """The attributes the package itself writes to after construction."""
    global _shared
    if _shared is None:
        _shared = set()
        for name, code in loader.BY_NAME.items():
            if (is_antlr(name) or name.startswith(("tests/", "std/")) or code.co_name == "__init__"
                    or not code.co_flags & 1):
                continue
            ins = list(dis.get_instructions(code))
            lines = set()
            for x in ins:
                if x.opname == "STORE_ATTR":
                    _shared.add(x.argval)
                elif _is_write(x):
                    lines.add(_line(x))
            for x in ins:
                # ... or whose contents it writes to
                if (x.opname == "LOAD_ATTR" and _line(x) in lines
                        and x.argval.startswith("_") and x.argval not in MUTATORS):
                    _shared.add(x.argval)
    return _shared


def near_stores(code, core=True):
    """Offsets and relative lines of a code object beside its writes to memory
    that others may see (attributes, items, globals, containers), and beside
    its reads of what is so written."""
    got = _near.get(id(code))
    if got is None:
        offs, rels = set(), set()
        if code.co_name != "__init__":
            shared = shared_names() if core else ()
            ins = list(dis.get_instructions(code))
            for i, x in enumerate(ins):
                read = x.opname == "LOAD_ATTR" and x.argval in shared
                if not (read or _is_write(x)):
                    continue
                offs.add(x.offset)
                for y in ins[i + 1:i + 3]:
                    offs.add(y.offset)
                line = _line(x)
                if line:
                    rels.add(line - code.co_firstlineno)
                    for y in ins[i + 1:]:
                        nxt = _line(y)
                        if nxt and nxt != line:
                            rels.add(nxt - code.co_firstlineno)
                            break
        got = _near[id(code)] = (code, offs, rels)
    return got[1], got[2]


def beside_writes(prof):
    """The sites of a profile that lie beside such writes."""
    k = id(prof)
    got = _beside.get(k)
    if got is None:
        lines, insts = [], []
        for s, n in prof:
            name, _, pos = s.rpartition("|")
            code = loader.BY_NAME.get(name)
            if code is None or code.co_name == "__init__":
                continue
            offs, rels = near_stores(code, not is_antlr(name))
            if pos[0] == "I":
                if int(pos[1:]) in offs:
                    insts.append((s, n))
            elif int(pos[1:]) in rels:
                lines.append((s, n))
        got = _beside[k] = (prof, lines, insts)
    return got[1], got[2]


_beside = {}
STORE_BIAS = 0.35


def choose_site(r, prof, inst_p=0.3, bias=STORE_BIAS, core_p=CORE_BIAS):
    """A point of an operation: (site, occurrence)."""
    core, antlr, inst = split_profile(prof)
    grp = None
    if r.random() < bias:
        wl, wi = beside_writes(prof)
        grp = wi if wi and r.random() < inst_p * 1.6 else wl
        if grp and len(grp) > 1 and r.random() < 0.6:
            # functions count alike, however many writes they hold
            names = sorted({s.rpartition("|")[0] for s, _ in grp})
            f = r.choice(names)
            grp = [x for x in grp if x[0].rpartition("|")[0] == f]
    if grp:
        pass
    elif inst and r.random() < inst_p:
        grp = inst
    elif core and (not antlr or r.random() < core_p):
        grp = core
    else:
        grp = antlr or core
    if not grp:
        return None
    if r.random() < 0.5:
        s, n = r.choice(grp)
    else:
        # proportional to the number of times the site is reached
        total = sum(n for _, n in grp)
        x = r.randrange(total)
        for s, n in grp:
            if x < n:
                break
            x -= n
    y = r.random()
    occ = 1 if y < 0.3 else (n if y < 0.4 else r.randint(1, n))
    return s, occ


def plan_switches(r, threads, ctx, world, n, burst=0.3, bias=STORE_BIAS,
                  dense=0.2, stall=0.15):
    """n preemption points, at random places of random operations; at times
    preemption at many of the threads' writes instead."""
    plan = []
    nt = len(threads)
    if nt < 2:
        return plan
    if r.random() < dense:
        return plan_dense(r, threads, ctx, world)
    if r.random() < stall:
        t = r.choice([t for t in range(nt) if threads[t]])
        return plan_stall(r, threads, ctx, world, t, r.randrange(len(threads[t])),
                          r.choice([x for x in range(nt) if x != t]))
    for _ in range(n):
        t = r.randrange(nt)
        if not threads[t]:
            continue
        i = r.randrange(len(threads[t]))
        to = r.choice([x for x in range(nt) if x != t])
        if r.random() < 0.1:
            plan.append({"t": t, "op": i, "site": "@op", "act": ["sw", to]})
            continue
        c = choose_site(r, ctx.profile(threads[t][i], world), bias=bias)
        if c is None:
            continue
        site, occ = c
        k = r.choice([1, 1, 2, 3, 8]) if r.random() < burst else 1
        for j in range(k):
            plan.append({"t": t, "op": i, "site": site, "occ": occ + j, "act": ["sw", to]})
    return plan


def plan_stall(r, threads, ctx, world=None, t=0, i=0, to=1):
    """One thread is held at one point of an operation, wherever it may be, until
    the others have done all they wanted."""
    core, antlr, _ = split_profile(ctx.profile(threads[t][i], world))
    grp = core if core and (not antlr or r.random() < 0.85) else antlr
    if not grp:
        return []
    f = r.choice(sorted({s.rpartition("|")[0] for s, _ in grp}))
    s, n = r.choice([x for x in grp if x[0].rpartition("|")[0] == f])
    occ = 1 if r.random() < 0.5 else r.randint(1, n)
    return [{"t": t, "op": i, "site": s, "occ": occ, "act": ["sw", to]}]


def plan_dense(r, threads, ctx, world, cap=160):
    """Threads change hands at many of their writes to shared memory (or at
    many lines): one run looks into many windows at once."""
    plan = []
    nt = len(threads)
    if nt < 2:
        return plan
    q = r.choice([0.05, 0.15, 0.4, 1.0])
    cap = max(12, min(cap, 500 // max(1, sum(map(len, threads)))))
    style = r.choice(["writes", "writes", "lines", "insts"])
    for t, ops in enumerate(threads):
        for i, op in enumerate(ops):
            prof = ctx.profile(op, world)
            wl, wi = beside_writes(prof)
            if style == "writes":
                grp = wi + [x for x in wl if "antlr4_runtime" in x[0] and r.random() < 0.3]
            else:
                core, antlr, inst = split_profile(prof)
                grp = core if style == "lines" else inst
            pts = []
            for s, n in grp:
                for occ in range(1, min(n, 3) + 1):
                    if r.random() < q:
                        pts.append((s, occ))
            if len(pts) > cap:
                pts = r.sample(pts, cap)
            for s, occ in pts:
                plan.append({"t": t, "op": i, "site": s, "occ": occ,
                             "act": ["sw", (t + r.randrange(1, nt)) % nt]})
    return plan


def plan_excs(r, threads, ctx, world, n, kinds, core_p=CORE_BIAS):
    plan = []
    for _ in range(n):
        t = r.randrange(len(threads))
        if not threads[t]:
            continue
        i = r.randrange(len(threads[t]))
        c = choose_site(r, ctx.profile(threads[t][i], world), inst_p=0.0, core_p=core_p)
        if c is None:
            continue
        plan.append({"t": t, "op": i, "site": c[0], "occ": c[1], "act": ["exc", r.choice(kinds)]})
    return plan


def barrage(r, ops, ctx, world=None):
    """One operation cut short again and again, at one place or at several of one
    function, with others between: what each cut leaves behind adds up."""
    op = r.choice(ops)
    prof = ctx.profile(op, world)
    first = choose_site(r, prof, inst_p=0.0, core_p=0.85)
    if first is None:
        return None
    f = first[0].rpartition("|")[0]
    if r.random() < 0.5:
        sites = [first]
    else:
        core, antlr, _ = split_profile(prof)
        here = [x for x in core + antlr if x[0].rpartition("|")[0] == f]
        sites = [(s, 1 if r.random() < 0.5 else r.randint(1, n)) for s, n in here] or [first]
    n = min(r.choice([15, 30, 60]), max(8, 150_000 // max(1, ctx.steps_of(op, world))))
    kinds = [r.choice(sorted(EXC))] if r.random() < 0.6 else sorted(EXC)
    thread, plan = [], []
    for i in range(n):
        s, occ = r.choice(sites)
        plan.append({"t": 0, "op": len(thread), "site": s, "occ": occ, "act": ["exc", r.choice(kinds)]})
        thread.append(op)
        if r.random() < 0.05:
            thread.append(r.choice(ops))
    return thread, plan


#: operations inside which more may happen when they are nested in another
DEEP = {"unit", "name", "conv", "compat", "eq", "hobs", "heq", "hcompat", "hconv", "hcvt", "parse", "hexpr"}


def plan_nests(r, threads, ctx, world, n, pool, deep=0.3):
    plan = []
    for _ in range(n):
        t = r.randrange(len(threads))
        if not threads[t]:
            continue
        i = r.randrange(len(threads[t]))
        c = choose_site(r, ctx.profile(threads[t][i], world))
        if c is None:
            continue
        d = {"t": t, "op": i, "site": c[0], "occ": c[1], "act": ["nest", r.choice(pool)]}
        plan.append(d)
        here = c[0].rpartition("|")[0] if r.random() < 0.6 else None
        depth = r.choice([1, 1, 2, 2, 6])
        while depth and d["act"][1]["o"] in DEEP and r.random() < deep + 0.5 * (depth > 2):
            # ... in which others are nested, or other threads go on
            depth -= 1
            prof = ctx.profile(d["act"][1], world)
            same = [x for x in prof if here and x[0].rpartition("|")[0] == here]
            if same:
                # in the function the one around it is in
                s, m = r.choice(same)
                c = s, r.randint(1, m)
            else:
                c = choose_site(r, prof)
            if c is None:
                break
            d["id"] = r.randrange(2 ** 30)
            e = {"t": t, "op": inside(d["id"]), "site": c[0], "occ": c[1]}
            x = r.random()
            if x < 0.25 and len(threads) > 1:
                e["act"] = ["sw", (t + 1) % len(threads)]
            elif x < 0.35:
                e["act"] = ["exc", r.choice(sorted(EXC))]
            else:
                e["act"] = ["nest", r.choice(pool)]
            plan.append(e)
            if e["act"][0] == "nest":
                d = e
    return plan


HOT = ("/atn/ParserATNSimulator", "/atn/LexerATNSimulator", "/dfa/", "PredictionContext", "/atn/ATN")


def antlr_site(r, prof):
    """A point in the parser's runtime, mostly where its shared tables grow."""
    _, antlr, _ = split_profile(prof)
    if not antlr:
        return None
    hot = [x for x in antlr if any(h in x[0] for h in HOT)]
    if hot and r.random() < 0.7:
        antlr = hot
        if r.random() < 0.4:
            # functions count alike, however long they are
            names = sorted({s.rpartition("|")[0] for s, _ in antlr})
            f = r.choice(names)
            antlr = [x for x in antlr if x[0].rpartition("|")[0] == f]
    s, n = r.choice(antlr)
    return s, 1 if r.random() < 0.4 else r.randint(1, n)


def aim_antlr(r, plan, threads, ctx, p):
    """The parser's runtime holds shared tables: aim many points there."""
    out = []
    for d in plan:
        if d["site"] != "@op" and d["t"] < len(threads) and d["op"] >= 0 and r.random() < p:
            c = antlr_site(r, ctx.profile(threads[d["t"]][d["op"]]))
            if c:
                d = {**d, "site": c[0], "occ": c[1]}
        out.append(d)
    return out


def ref_ok(ctx, op, world=None):
    """References that cannot be established make an operation unusable."""
    try:
        ctx.profile(op, world)
        return True
    except harness.HarnessError:
        return False


__all__ = [n for n in dir() if not n.startswith("__")] + ["key"]
