"""Objects that are copied, or that go to another process.

The other process is a real one: an interpreter with other hash randomisation
that has loaded no database.  It answers each request in a fork of itself, so
requests do not influence each other.
"""
from __future__ import annotations

import copy
import json
import os
import pickle
import select
import socket
import struct
import subprocess
import sys

from . import loader

VIAS = ["deepcopy", "deepcopy", "pypickle", "pypickle", "pickle5", "pickle4", "pickle3", "pickle2"]


def move(obj, via):
    if via == "copy":
        return copy.copy(obj)
    if via == "deepcopy":
        return copy.deepcopy(obj)
    if via == "pypickle":
        # the pickler written in Python: threads may change hands inside it
        return pickle._loads(pickle._dumps(obj, 4))
    return pickle.loads(pickle.dumps(obj, int(via[6:])))


def dumps(obj, via):
    if via.startswith("pickle"):
        return pickle.dumps(obj, int(via[6:]))
    return pickle._dumps(obj, 4)


def register_std():
    """Copying and pickling become points where threads may change hands."""
    import types

    for mod in (copy, pickle):
        rel = f"std/{mod.__name__}.py"
        todo = [v for v in vars(mod).values() if isinstance(v, types.FunctionType)]
        if mod is pickle:
            for k in (pickle._Pickler, pickle._Unpickler, pickle._Framer, pickle._Unframer):
                todo += [v for v in vars(k).values() if isinstance(v, types.FunctionType)]
        for f in todo:
            if f.__module__ == mod.__name__:
                loader._register(f.__code__, rel)


# ------------------------------------------------------------------ operations
class MovingOps:
    """Mixed into World."""

    def _sub(self):
        w = type(self).__new__(type(self))
        w.systems, w.shared = self.systems, self.shared
        w.units, w.convs, w.slots, w.kept = {}, {}, {}, []
        return w

    def _quietly(self, op):
        """The operation's answer, failing or not; only injected exceptions
        leave."""
        from .world import canon_error

        try:
            return ["ok", getattr(self, "do_" + op["o"])(op)]
        except Exception as e:  # noqa: BLE001
            if e.args == ("injected",):
                raise
            return canon_error(e)

    def do_clone(self, op):
        """A unit system is copied; the copy stays."""
        self.systems[op["s"]] = move(self.systems[op["from"]], op["via"])
        return "copied"

    def do_dupe(self, op):
        """A copy is made, asked, and forgotten."""
        S = self.systems[op.get("s", "db")]
        self.systems["dupe"] = move(S, op["via"])
        try:
            return self._quietly({**op["op"], "s": "dupe"})
        finally:
            del self.systems["dupe"]

    def do_alike(self, op):
        """A unit system and its copy are asked the same."""
        S = self.systems.get(op["s"])
        if S is None:
            return None
        a = self._quietly({**op["op"], "s": op["s"]}) if op["before"] else None
        self.systems[op["to"]] = move(S, op["via"])
        b = self._quietly({**op["op"], "s": op["to"]})
        c = self._quietly({**op["op"], "s": op["s"]})
        return "alike" if b == c and a in (None, b) else ["not alike", a, b, c]

    def do_on(self, op):
        """Something is asked of a copy."""
        if op["s"] not in self.systems:
            return None
        return self._quietly({**op["op"], "s": op["s"]})

    def do_extended(self, op):
        """What an operation answers where more has been registered."""
        for item in op["items"]:
            self.do_add({"s": "db", "item": item, "replace": True})
        return getattr(self, "do_" + op["op"]["o"])(op["op"])

    def do_send(self, op):
        """A unit system goes to another process, which is asked there; it may
        come back."""
        blob = dumps(self.systems[op.get("from", "db")], op["via"])
        got, back = ask_other({"kind": "system", "ops": op["ops"], "back": bool(op.get("slot"))}, blob)
        if op.get("slot"):
            self.systems[op["slot"]] = pickle.loads(back)
        return got

    def do_carry(self, op):
        """The units (or converter) an operation is about are copies."""
        inner = op["op"]
        try:
            objs = {}
            for k in ("h", "h2"):
                if k in inner and op["which"] in (k, "both"):
                    objs[k] = self.unit_handle("db", inner[k])
            if "c" in inner:
                objs["c"] = self.conv_handle("db", *inner["c"])
        except Exception:  # noqa: BLE001 - they cannot be made: nor can the operation be done
            return self._quietly(inner)
        keys = sorted(objs)
        if op["to"] == "other":
            return ask_other({"kind": "units", "op": inner, "keys": keys}, dumps([objs[k] for k in keys], op["via"]))[0]
        if op["whole"]:
            got = move([objs[k] for k in keys], op["via"])
        else:
            got = [move(objs[k], op["via"]) for k in keys]
        sub = self._sub()
        sub.units.update(self.units)
        sub.adopt_copies(inner, keys, got)
        return sub._quietly(inner)

    def adopt_copies(self, inner, keys, got):
        for k, v in zip(keys, got):
            if k == "c":
                self.convs[("db", *inner["c"])] = v
            else:
                self.units[("db", inner[k])] = v

    def do_errcopy(self, op):
        """An error is handed on."""
        from .world import canon_error

        inner = op["op"]
        try:
            return ["ok", getattr(self, "do_" + inner["o"])(inner)]
        except Exception as e:  # noqa: BLE001
            if e.args == ("injected",):
                raise
            if op["to"] == "other":
                return ask_other({"kind": "error"}, dumps(e, op["via"]))[0]
            return canon_error(move(e, op["via"]))


# ------------------------------------------------------------ the other process
ADDRESS = None


def start_other():
    """Once per worker, before any run."""
    global ADDRESS
    if ADDRESS:
        return
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"other-{os.getpid()}")
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str((int(env.get("PYTHONHASHSEED") or 0) * 7 + 12345) % (2**32 - 1) + 1)
    env["LC_ALL"] = "C"
    env["TZ"] = "Asia/Kathmandu"
    p = subprocess.Popen([sys.executable, "-B", "-m", "dst.worker", json.dumps({"mode": "other", "prop": "C17", "path": path})],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    if p.stdout.readline().strip() != b"ready":
        raise RuntimeError("the other process did not start")
    ADDRESS = path
    globals()["_KEEP"] = p


def _send(s, *blobs):
    for b in blobs:
        s.sendall(struct.pack("!Q", len(b)) + b)


def _recv(s):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = s.recv(n - len(out))
            if not b:
                raise ConnectionError("the other process gave no answer")
            out += b
        return out

    return exactly(struct.unpack("!Q", exactly(8))[0])


def ask_other(req, blob):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(90)
    try:
        s.connect(ADDRESS)
        _send(s, json.dumps(req).encode(), blob)
        answer = json.loads(_recv(s))
        return answer, _recv(s)
    finally:
        s.close()


def answer(req, blob):
    from .world import World, canon_error

    try:
        obj = pickle.loads(blob)
    except BaseException as e:  # noqa: BLE001
        return ["unreadable", canon_error(e)], b""
    w = World()
    w.units.clear()
    if req["kind"] == "error":
        return canon_error(obj), b""
    if req["kind"] == "units":
        w.adopt_copies(req["op"], req["keys"], obj)
        return w.execute(req["op"]), b""
    w.systems["db"] = obj
    return [w.execute(o) for o in req["ops"]], pickle.dumps(obj) if req["back"] else b""


def serve(cfg):
    """The other process."""
    from . import harness

    harness.freeze()
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(cfg["path"])
    ls.listen(8)
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        ready, _, _ = select.select([ls, sys.stdin], [], [])
        if sys.stdin in ready:
            return
        s, _ = ls.accept()
        pid = os.fork()
        if pid == 0:
            try:
                s.settimeout(90)
                req, blob = json.loads(_recv(s)), _recv(s)
                got, back = answer(req, blob)
                _send(s, json.dumps(got).encode(), back)
            finally:
                os._exit(0)
        s.close()
        while True:
            # what has ended
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
