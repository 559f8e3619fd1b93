"""The simulator: one process, one runnable thread at a time, a plan that
decides every context switch, every injected exception and every re-entrant
call.

Caller threads are real Python threads parked on a private baton; exactly one
is ever runnable.  Scheduling points are ``sys.monitoring`` LINE or
INSTRUCTION events of the package's own code objects (see loader.py) plus the
boundaries between operations.  Nothing is drawn at run time: the plan is
fixed before the run starts, so a run is a pure function of (code, plan).

A plan is a list of decisions
    {"t": thread, "op": index of the operation in that thread,
     "site": "<file>:<qualname>:<firstline>|L<rel line>" or "...|I<offset>"
             or "@op" (just before the operation starts),
     "occ": n-th time that thread reaches the site inside that operation,
     "act": ["sw", thread] | ["exc", name] | ["nest", op]}
"""
from __future__ import annotations

import _thread
import json
import os
import select
import signal
import sys
import threading
import warnings

from . import loader

mon = sys.monitoring
TOOL = 3
EV = mon.events

_real_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident

#: The simulation that is running, if any (one per forked child).
CUR: "Sim | None" = None


class SimAbort(BaseException):
    """Unwinds parked threads once a run has been decided."""


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    """A run took more steps than any terminating run could need."""


class AsyncKill(BaseException):
    """Stands for an exception thrown into a thread from outside."""


class AlarmTimeout(Exception):
    """Stands for what a user's SIGALRM handler raises."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "AsyncKill": AsyncKill,
    "AlarmTimeout": AlarmTimeout,
}


# --------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock / RLock as the package sees them: blocking becomes a
    scheduling decision, and a wait nobody can end becomes a Deadlock."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while True:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            sim = CUR
            T = sim.by_ident.get(me) if sim is not None else None
            if T is None:
                self._foreign_wait(timeout)
                if self._owner is not None and timeout is not None and timeout >= 0:
                    return False
                continue
            if not sim.block(T, self, timeout is not None and timeout >= 0):
                return False

    def _foreign_wait(self, timeout):
        """A thread the simulator does not own (a thread the package started
        itself, or the sequential audit) waits here for a bounded while."""
        import time

        limit = 3.0 if timeout is None or timeout < 0 else min(timeout, 3.0)
        end = time.monotonic() + limit
        if len(sys._current_frames()) == 1:
            # (a thread that is being started has no frame yet)
            end = min(end, time.monotonic() + 0.05)
        while self._owner is not None:
            if time.monotonic() >= end:
                if timeout is not None and timeout >= 0:
                    return
                raise Deadlock("lock is held and nobody is left to release it")
            time.sleep(0.001)

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if CUR is not None:
                CUR.unblocked(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # Condition support for re-entrant locks.
    def _release_save(self):
        state = self._count, self._owner
        self._count = 0
        self._owner = None
        if CUR is not None:
            CUR.unblocked(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def __reduce__(self):
        raise TypeError("cannot pickle lock object")


class SimRLock(SimLock):
    _reentrant = True


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock


# ----------------------------------------------------------------------- sim
class SimThread:
    __slots__ = ("tid", "ops", "go", "state", "op", "occ", "ident", "waiting",
                 "timed", "timed_out", "results", "start_new")

    def __init__(self, tid, ops):
        self.tid = tid
        self.ops = ops
        self.go = _real_alloc()
        self.go.acquire()
        self.state = "ready"
        self.op = -1
        self.occ = {}
        self.ident = None
        self.waiting = None
        self.timed = False
        self.timed_out = False
        self.results = []


def inside(ident):
    """The "op" of decisions about a nested operation."""
    return -1 if ident is None else -2 - ident


class Sim:
    def __init__(self, execute, threads, plan, history=None, limit=None):
        self.limit = limit
        self.steps = 0
        self.execute = execute  # (tid, op index, op) -> outcome
        self.threads = [SimThread(i, ops) for i, ops in enumerate(threads)]
        self.by_ident = {}
        self.clock = 0
        self.dead = None
        self.fired = []
        self.nested = []
        self.history = history if history is not None else []
        self.in_main = None
        self.main_go = _real_alloc()
        self.main_go.acquire()
        self.plan = plan
        self.at_op = {}
        self.lines = {}  # id(code) -> {line: {(tid, op, occ): (idx, act)}}
        self.insts = {}
        self._keep = []
        self._compile(plan)

    # -- plan
    def _compile(self, plan):
        for idx, d in enumerate(plan):
            key = (d["t"], d["op"], d.get("occ", 1))
            if d["site"] == "@op":
                self.at_op.setdefault((d["t"], d["op"]), []).append((idx, d["act"]))
                continue
            name, _, pos = d["site"].rpartition("|")
            code = loader.BY_NAME.get(name)
            if code is None:
                continue
            self._keep.append(code)
            if pos[0] == "L":
                table, at = self.lines, code.co_firstlineno + int(pos[1:])
            else:
                table, at = self.insts, int(pos[1:])
            table.setdefault(id(code), {}).setdefault(at, {}).setdefault(
                key, []
            ).append((idx, d["act"]))

    def arm(self):
        for code in self._keep:
            ev = 0
            if id(code) in self.lines:
                ev |= EV.LINE
            if id(code) in self.insts:
                ev |= EV.INSTRUCTION
            mon.set_local_events(TOOL, code, ev)
        if self.limit is not None:
            for code, _rel, _group in loader.CODES.values():
                mon.set_local_events(
                    TOOL, code, mon.get_local_events(TOOL, code) | EV.LINE
                )

    def disarm(self):
        codes = self._keep
        if self.limit is not None:
            codes = [c for c, _r, _g in loader.CODES.values()]
        for code in codes:
            mon.set_local_events(TOOL, code, 0)

    # -- events
    def event(self, table, code, at):
        nothing = mon.DISABLE
        if self.limit is not None and table is self.lines:
            nothing = None
            self.steps += 1
            if self.steps > self.limit:
                raise StepLimit()
        sites = table.get(id(code))
        if sites is None:
            return nothing
        want = sites.get(at)
        if want is None:
            return nothing
        T = self.by_ident.get(_get_ident())
        if T is None or T.op == -1 or self.dead:
            return None
        k = (id(code), at)
        occ = T.occ[k] = T.occ.get(k, 0) + 1
        acts = want.get((T.tid, T.op, occ))
        if acts:
            for idx, act in acts:
                self.act(T, idx, act)
        return None

    def act(self, T, idx, act):
        kind = act[0]
        if kind == "sw":
            to = self.pick(T, act[1])
            if to is None:
                return
            self.fired.append(idx)
            self.clock += 1
            self.switch(T, to)
        elif kind == "exc":
            self.fired.append(idx)
            self.clock += 1
            raise EXC[act[1]]("injected")
        elif kind == "nest":
            self.fired.append(idx)
            self.clock += 1
            # (what happens inside it refers to the decision's id)
            occ, T.occ = T.occ, {}
            op, T.op = T.op, inside(self.plan[idx].get("id"))
            try:
                t0 = self.clock
                # (events are off within a callback, this turns them on)
                out = sys.call_tracing(self.execute, (T.tid, -1, act[1]))
                self.clock += 1
                self.nested.append([T.tid, op, idx, out, t0, self.clock])
            finally:
                T.op, T.occ = op, occ

    # -- scheduling
    def pick(self, T, prefer):
        n = len(self.threads)
        for k in range(n):
            c = self.threads[(prefer + k) % n]
            if c is not T and c.state == "ready":
                return c
        return None

    def switch(self, T, to):
        T.state = "ready" if T.state == "running" else T.state
        to.state = "running"
        to.go.release()
        T.go.acquire()
        if self.dead:
            raise SimAbort()

    def block(self, T, lock, timed):
        """T cannot get ``lock``. Returns False when a timed wait expires."""
        T.waiting = lock
        T.timed = timed
        T.timed_out = False
        T.state = "blocked"
        to = self.pick(T, T.tid + 1)
        if to is None:
            # Nothing is runnable: the clock jumps to the earliest timeout.
            timed_waiters = [t for t in self.threads if t.state == "blocked" and t.timed]
            if timed_waiters:
                to = timed_waiters[0]
                to.timed_out = True
                to.waiting = None
                if to is T:
                    T.state = "running"
                    return False
            else:
                self.dead = "deadlock"
                raise Deadlock("all threads blocked")
        self.clock += 1
        self.switch(T, to)
        T.state = "running"
        T.waiting = None
        return not T.timed_out

    def unblocked(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is lock:
                t.state = "ready"

    def _body(self, T):
        T.go.acquire()
        me = T.ident = _get_ident()
        self.by_ident[me] = T
        try:
            if not self.dead:
                for i, op in enumerate(T.ops):
                    acts = self.at_op.get((T.tid, i))
                    if acts:
                        for idx, act in acts:
                            if act[0] == "sw":
                                self.act(T, idx, act)
                    T.occ = {}
                    T.op = i
                    self.clock += 1
                    t0 = self.clock
                    try:
                        out = self.execute(T.tid, i, op)
                    finally:
                        T.op = -1
                    self.clock += 1
                    self.history.append([T.tid, i, t0, self.clock, out])
                    T.results.append(out)
        except SimAbort:
            pass
        except StepLimit:
            self.dead = self.dead or "steplimit"
        except Deadlock:
            T.results.append(["deadlock"])
            self.dead = self.dead or "deadlock"
        except BaseException as e:  # noqa: BLE001 - an error of the harness
            self.dead = f"harness: {type(e).__name__}: {e}"
        T.state = "done"
        if self.dead:
            if self.main_go.locked():
                self.main_go.release()
            if self.in_main not in (None, T) and self.in_main.state != "done":
                self.in_main.go.release()
            return
        to = self.pick(T, T.tid + 1)
        if to is not None:
            to.state = "running"
            to.go.release()
            return
        if any(t.state == "blocked" for t in self.threads):
            timed = [t for t in self.threads if t.state == "blocked" and t.timed]
            if timed:
                timed[0].timed_out = True
                timed[0].state = "running"
                timed[0].go.release()
                return
            self.dead = "deadlock"
        self.main_go.release()

    def run(self, first=0, main=None):
        """``main``: the client that is this thread itself."""
        global CUR
        if not self.threads:
            return self
        CUR = self
        try:
            self.arm()
            if main is not None:
                self.in_main = self.threads[main % len(self.threads)]
            for T in self.threads:
                if T is not self.in_main:
                    _thread.start_new_thread(self._body, (T,))
            T = self.threads[first % len(self.threads)]
            T.state = "running"
            T.go.release()
            if self.in_main is not None:
                self._body(self.in_main)
            self.main_go.acquire()
            self.disarm()
        finally:
            CUR = None
        return self


def fork(fn, timeout=20.0):
    """What fn() gives in a process forked from this thread now.  The other
    threads do not exist there, wherever they were."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sim = CUR
            if sim is not None:
                me = sim.by_ident.get(_get_ident())
                for t in sim.threads:
                    if t is not me:
                        t.state = "gone"
                if me is not None:
                    me.op = -1
            try:
                out = fn()
            except Deadlock:
                out = ["blocked"]
            except StepLimit:
                out = ["no end"]
            view = memoryview(json.dumps(out).encode())
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while select.select([r], [], [], timeout)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        else:
            os.kill(pid, signal.SIGKILL)
            return ["no end"]
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return ["died"]


def _on_line(code, line):
    sim = CUR
    if sim is None:
        return mon.DISABLE
    if line < 0:
        return None
    return sim.event(sim.lines, code, line)


def _on_inst(code, offset):
    sim = CUR
    if sim is None:
        return mon.DISABLE
    return sim.event(sim.insts, code, offset)


def install():
    install_locks()
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, EV.LINE, _on_line)
    mon.register_callback(TOOL, EV.INSTRUCTION, _on_inst)
    sys.unraisablehook = lambda *_: None
    # forking beside other threads is what C15 is about
    warnings.filterwarnings("ignore", message=".*multi-threaded, use of fork", category=DeprecationWarning)


# ------------------------------------------------------------------- profile

def site_name(code, rel, pos):
    return f"{rel}:{code.co_qualname}:{code.co_firstlineno}|{pos}"


def profile(fn, inst=True, limit=None, groups=("core", "antlr")):
    """Run fn() alone and count how often it reaches each site; returns
    (value, sites, line events, Python calls in all code, sympy's included).

    Raises StepLimit inside fn once ``limit`` line events have happened (used to
    turn a hang into a bounded, repeatable verdict).
    """
    lines: dict = {}
    insts: dict = {}
    total = [0]
    calls = [0]

    def on_start(code, off):
        calls[0] += 1

    def on_line(code, line):
        if line < 0:
            return
        total[0] += 1
        if limit is not None and total[0] > limit:
            raise StepLimit()
        k = (id(code), line)
        lines[k] = lines.get(k, 0) + 1

    def on_inst(code, off):
        k = (id(code), off)
        insts[k] = insts.get(k, 0) + 1

    mon.register_callback(TOOL, EV.LINE, on_line)
    mon.register_callback(TOOL, EV.INSTRUCTION, on_inst)
    try:
        for code, rel, group in loader.CODES.values():
            if group not in groups:
                continue
            ev = EV.LINE
            if inst and group == "core":
                ev |= EV.INSTRUCTION
            mon.set_local_events(TOOL, code, ev)
        mon.register_callback(TOOL, EV.PY_START, on_start)
        mon.set_events(TOOL, EV.PY_START)
        value = fn()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, EV.PY_START, None)
        for code, rel, group in loader.CODES.values():
            mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, EV.LINE, _on_line)
        mon.register_callback(TOOL, EV.INSTRUCTION, _on_inst)
    out = {}
    for (cid, line), n in lines.items():
        code, rel, group = loader.CODES[cid]
        out[site_name(code, rel, f"L{line - code.co_firstlineno}")] = n
    for (cid, off), n in insts.items():
        code, rel, group = loader.CODES[cid]
        out[site_name(code, rel, f"I{off}")] = n
    return value, out, total[0], calls[0]
