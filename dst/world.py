"""What a simulated client can do, and how an answer is written down.

Every operation goes through the public API (plus the registration types the
project's own tests use).  ``execute`` returns ["ok", observation] or
["err", exception type, message]; nothing else leaves an operation.
"""
from __future__ import annotations

import json
import re
import sys

from . import sim as _sim
from .moving import MovingOps

#: default reprs in messages carry addresses, which no answer depends on
ADDRESS = re.compile(r"at 0x[0-9a-fA-F]+")

PASS = (_sim.SimAbort, _sim.Deadlock, _sim.StepLimit)


def canon_value(v):
    import numbers

    t = type(v)
    if t.__module__ == "numpy" and hasattr(v, "dtype"):
        import numpy as np

        if isinstance(v, np.ndarray):
            if v.size > 100 and v.dtype.hasobject:
                return ["nd", str(v.dtype), list(v.shape), [repr(x) for x in v.ravel()[:: max(1, v.size // 50)].tolist()]]
            if v.size > 100:
                import hashlib

                return ["nd", str(v.dtype), list(v.shape), hashlib.sha256(v.tobytes()).hexdigest()[:24]]
            return ["nd", str(v.dtype), list(v.shape), [repr(x) for x in v.ravel().tolist()]]
        return ["np", str(v.dtype), repr(v.item())]
    if isinstance(v, numbers.Number) or v is None or isinstance(v, (bool, str)):
        return [t.__name__, repr(v)]
    if isinstance(v, (list, tuple)):
        return [t.__name__, [canon_value(x) for x in v]]
    return [t.__name__, str(v)]


class Quirk:
    """A caller's own kind of number.  Its n-th arithmetic operation may raise,
    or do something else first."""

    def __init__(self, x, how="plain", n=0, hook=None, shared=None):
        self.x = x
        self.shared = shared if shared is not None else {"left": n, "how": how, "hook": hook}

    def _op(self, other, f):
        s = self.shared
        s["left"] -= 1
        if s["left"] == 0:
            if s["how"] == "raise":
                raise ArithmeticError("this number cannot do that")
            if s["hook"] is not None:
                s["hook"]()
        return Quirk(f(self.x, other.x if isinstance(other, Quirk) else other), shared=s)

    def __mul__(self, o): return self._op(o, lambda a, b: a * float(b))
    def __rmul__(self, o): return self._op(o, lambda a, b: float(b) * a)
    def __add__(self, o): return self._op(o, lambda a, b: a + float(b))
    def __radd__(self, o): return self._op(o, lambda a, b: float(b) + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - float(b))
    def __rsub__(self, o): return self._op(o, lambda a, b: float(b) - a)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / float(b))
    def __rtruediv__(self, o): return self._op(o, lambda a, b: float(b) / a)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** float(b))
    def __neg__(self): return self._op(0, lambda a, b: -a)
    def exp(self): return self._op(0, lambda a, b: __import__("math").exp(a))
    def log(self): return self._op(0, lambda a, b: __import__("math").log(a))
    def __str__(self): return repr(self.x)


def make_value(spec):
    """["f", 1.5] | ["i", 3] | ["frac", "1/3"] | ["dec", "1.5"] | ["nd", dtype, shape, [..]]"""
    k = spec[0]
    if k == "f":
        return float(spec[1])
    if k == "i":
        return int(spec[1])
    if k == "frac":
        from fractions import Fraction

        return Fraction(spec[1])
    if k == "quirk":
        return Quirk(float(spec[2]), spec[1], spec[3])
    if k == "dec":
        from decimal import Decimal

        return Decimal(spec[1])
    import numpy as np

    if k == "nd":
        return np.array(spec[3], dtype=spec[1]).reshape(spec[2])
    if k == "big":
        return ((np.arange(spec[2]) * 7 + spec[3]) % 1009 + 1).astype(spec[1])
    if k == "np":
        return np.dtype(spec[1]).type(spec[2])
    raise ValueError(spec)


def letters(i):
    out = ""
    while i or not out:
        i, d = divmod(i, 10)
        out = "abcdefghij"[d] + out
    return out


def canon_node(n):
    """Structure of a parse result, independent of its repr."""
    import dataclasses

    if dataclasses.is_dataclass(n) and not isinstance(n, type):
        return [type(n).__name__] + [
            canon_node(getattr(n, f.name)) for f in dataclasses.fields(n)
        ]
    if isinstance(n, (list, tuple)):
        return [canon_node(x) for x in n]
    return [type(n).__name__, str(n)]


def canon_error(e):
    extra = []
    if isinstance(e, SyntaxError):
        extra = [e.msg, e.lineno, e.offset, e.text]
    return ["err", type(e).__name__, ADDRESS.sub("at 0x?", str(e))[:300]] + extra


def build_item(item, system):
    from pyudunits2 import BasisUnit
    from pyudunits2._unit_reference import Name, Prefix, UnitReference
    from pyudunits2._unit_system import LazilyDefinedUnit

    if item["t"] == "prefix":
        return Prefix(
            name=item["name"], value=item["value"], symbols=tuple(item["symbols"])
        )
    ref = UnitReference(
        name=Name(*item["name"]) if item.get("name") else None,
        symbols=tuple(item.get("symbols", ())),
        alias_names=tuple(Name(*a) for a in item.get("aliases", ())),
        alias_symbols=tuple(item.get("alias_symbols", ())),
    )
    if item["t"] == "base":
        return BasisUnit(
            names=ref,
            dimensionless=item.get("dimless", False),
            is_time_unit=item.get("time", False),
        )
    return LazilyDefinedUnit(unit_system=system, definition=item["def"], names=ref)


def shared_item(item, system, shared):
    """*shared*: objects a caller hands to several systems - base units and
    prefixes belong to no system in particular."""
    if shared is None or item["t"] not in ("base", "prefix"):
        obj = build_item(item, system)
        if shared is not None and item["t"] == "def":
            shared.setdefault(("made for", id(system)), {})[item["name"][0]] = obj
        return obj
    key = json.dumps(item, sort_keys=True)
    if key not in shared:
        shared[key] = build_item(item, system)
    return shared[key]


def build_system(items, shared=None):
    from pyudunits2 import UnitSystem

    system = UnitSystem()
    for item in items:
        obj = shared_item(item, system, shared)
        if item["t"] == "prefix":
            system.add_prefix(obj)
        else:
            system.add_unit(obj)
    return system


class World(MovingOps):
    #: The pristine shipped database, loaded once per interpreter before any
    #: run is forked off.
    DB = None

    def __init__(self, spec=None):
        spec = spec or {}
        if spec.get("stack"):
            # (a run is a process of its own)
            sys.setrecursionlimit(spec["stack"])
        self.spec = spec
        self.systems = {"db": World.DB}
        self.shared = {} if spec.get("share") else None
        for name, items in spec.get("systems", {}).items():
            self.systems[name] = build_system(items, self.shared)
        self.units = {}
        self.convs = {}
        self.slots = {}
        self.kept = []

    # -- shared objects, created before the run starts
    def prepare(self, op):
        # An object that cannot be made stays unmade: the operation itself
        # then reports the error.
        for o in op.get("ops", ()):
            self.prepare(o)
        if op["o"] in ("carry", "errcopy", "on"):
            self.prepare(op["op"])
        try:
            for k in ("h", "h2"):
                if k in op:
                    self.unit_handle(op.get("s", "db"), op[k])
            if "c" in op:
                self.conv_handle(op.get("s", "db"), *op["c"])
        except Exception:  # noqa: BLE001
            pass

    def unit_handle(self, s, q):
        k = (s, q)
        if k not in self.units:
            self.units[k] = self.systems[s].unit(q)
        return self.units[k]

    def conv_handle(self, s, a, b):
        from pyudunits2 import Converter

        k = (s, a, b)
        if k not in self.convs:
            S = self.systems[s]
            self.convs[k] = Converter(S.unit(a), S.unit(b))
        return self.convs[k]

    # -- operations
    def execute(self, op):
        try:
            return ["ok", getattr(self, "do_" + op["o"])(op)]
        except PASS:
            raise
        except BaseException as e:  # noqa: BLE001 - every failure is an answer
            # The caller may add to an error what it likes: it is its own.
            if getattr(e, "_dst_seen", None):
                return canon_error(e) + ["the same error object as before"]
            try:
                e._dst_seen = True
            except AttributeError:
                pass
            return canon_error(e)

    def obs_unit(self, u, what):
        from pyudunits2 import DateUnit

        out = {"type": type(u).__name__}
        date = isinstance(u, DateUnit)
        for w in what:
            if w == "str":
                out[w] = (
                    [str(u.unit), str(u.reference_date)] if date else str(u)
                )
            elif w == "exp":
                out[w] = u.expanded()
            elif w == "dim":
                d = u.dimensionality()
                out[w] = sorted((str(k), str(v)) for k, v in d.items())
            elif w == "print":
                # as a user sees them, in the order they come
                d = u.dimensionality()
                out[w] = [str(d), [str(k) for k in d.keys()]]
            elif w == "flags":
                out[w] = [u.is_dimensionless(), u.is_time_unit()]
        return out

    def do_nop(self, op):
        return None

    def do_gc(self, op):
        import gc

        gc.collect()
        return None

    def do_flood(self, op):
        """A great many different questions at one go."""
        from .rng import digest

        S = self.systems[op.get("s", "db")]
        out = []
        for q in op["q"]:
            try:
                if op["k"] == "parse":
                    out.append(self.do_parse({"q": q}))
                elif op["k"] == "conv":
                    out.append(self._converter(S.unit(q[0]), S.unit(q[1]), [["f", 1.5]]))
                else:
                    u = S.unit_by_name_or_symbol(q) if op["k"] == "name" else S.unit(q)
                    out.append([str(u), u.expanded()])
            except PASS:
                raise
            except Exception as e:  # noqa: BLE001
                if e.args == ("injected",):
                    raise
                out.append(canon_error(e))
        return [len(out), digest(out)]

    def do_drop(self, op):
        """Nobody needs this unit system any more."""
        import gc

        del self.systems[op["s"]]
        gc.collect()
        return None

    def do_passing(self, op):
        """A system made for one question and thrown away, as often as wanted."""
        import copy
        import gc

        w = copy.copy(self)
        w.units, w.convs = {}, {}
        got = None
        for _ in range(op.get("n", 1)):
            w.systems = {op["s"]: build_system(self.spec["systems"][op["s"]])}
            got = getattr(w, "do_" + op["op"]["o"])(op["op"])
            w.systems = None
            if op.get("gc"):
                gc.collect()
        return got

    def do_lowstack(self, op):
        """The same operation with only a few frames of stack left."""
        import sys

        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        out = None
        try:
            sys.setrecursionlimit(depth + op["n"])
            out = self.execute(op["op"])
        finally:
            sys.setrecursionlimit(old)
        if out[0] == "err" and out[1] == "RecursionError":
            raise RecursionError("stack exhausted")
        return out

    def do_fork(self, op):
        """A process is forked here and now; what it answers."""
        return _sim.fork(lambda: [self.execute(o) for o in op["ops"]])

    def do_unit(self, op):
        u = self.systems[op.get("s", "db")].unit(op["q"])
        return self.obs_unit(u, op.get("w", ("str", "exp")))

    def do_name(self, op):
        u = self.systems[op.get("s", "db")].unit_by_name_or_symbol(op["q"])
        return self.obs_unit(u, op.get("w", ("str", "exp")))

    def do_forget(self, op):
        """The caller drops what sympy remembers (as sympy does by itself, bit by bit)."""
        from sympy.core.cache import clear_cache

        clear_cache()
        return "forgot"

    def do_scribble(self, op):
        """The caller overwrites what it was given."""
        u = self.systems[op.get("s", "db")].unit_by_name_or_symbol(op["q"])
        d = u.dimensionality()
        out = sorted((str(k), str(v)) for k, v in d.items())
        if isinstance(d, dict):
            d[u] = 7
            d["nonsense"] = 1
        return out

    def do_parse(self, op):
        from pyudunits2._grammar import parse

        n = parse(op["q"])
        return [canon_node(n), str(n)]

    def _converter(self, a, b, vals):
        from pyudunits2 import Converter

        c = Converter(a, b)
        return {
            "expr": str(c.expression),
            "v": [canon_value(c.convert(make_value(v))) for v in vals],
        }

    def do_conv(self, op):
        S = self.systems[op.get("s", "db")]
        S2 = self.systems[op.get("s2", op.get("s", "db"))]
        return self._converter(S.unit(op["a"]), S2.unit(op["b"]), op["v"])

    def do_compat(self, op):
        S = self.systems[op.get("s", "db")]
        a, b = S.unit(op["a"]), S.unit(op["b"])
        return [a.is_convertible_to(b), b.is_convertible_to(a)]

    def do_eq(self, op):
        S = self.systems[op.get("s", "db")]
        a, b = S.unit(op["a"]), S.unit(op["b"])
        return [a == b, b == a]

    # operations on objects shared by all clients
    def do_hobs(self, op):
        return self.obs_unit(self.unit_handle(op.get("s", "db"), op["h"]), op["w"])

    def do_heq(self, op):
        a = self.unit_handle(op.get("s", "db"), op["h"])
        b = self.unit_handle(op.get("s", "db"), op["h2"])
        return [a == b, b == a]

    def do_hcompat(self, op):
        a = self.unit_handle(op.get("s", "db"), op["h"])
        b = self.unit_handle(op.get("s", "db"), op["h2"])
        return [a.is_convertible_to(b), b.is_convertible_to(a)]

    def do_hconv(self, op):
        a = self.unit_handle(op.get("s", "db"), op["h"])
        b = self.unit_handle(op.get("s", "db"), op["h2"])
        return self._converter(a, b, op["v"])

    def do_hcvt(self, op):
        """Convert on a shared converter; the argument must come back untouched
        and results handed out earlier must stay what they were."""
        c = self.conv_handle(op.get("s", "db"), *op["c"])
        v = make_value(op["v"])
        before = canon_value(v)
        nested = []
        if op["v"][0] == "quirk" and op["v"][1] == "nest":
            inner = op["inner"]
            v.shared["hook"] = lambda: nested.append(canon_value(c.convert(make_value(inner))))
        r = c.convert(v)
        if canon_value(v) != before:
            return ["BROKEN input changed", before, canon_value(v)]
        seen = canon_value(r)
        if op.get("scribble") and hasattr(r, "setflags") and r.size and r is not v:
            # a result is the caller's to overwrite
            r[...] = 99
        else:
            self.kept.append((r, seen))
        if nested:
            return {"outer": seen, "inner": nested}
        return seen

    def do_kept(self, op):
        """Which results handed out earlier have changed since?"""
        return [[seen, canon_value(r)] for r, seen in self.kept if canon_value(r) != seen]

    def do_hcvtmut(self, op):
        """The caller reuses one array: convert, overwrite it, convert again."""
        c = self.conv_handle(op.get("s", "db"), *op["c"])
        v = make_value(op["v"])
        first = canon_value(c.convert(v))
        v[...] = make_value(op["v2"])
        return [first, canon_value(c.convert(v))]

    # objects kept by the client and looked at later
    def do_take(self, op):
        self.slots[op["slot"]] = self.systems[op["s"]].unit(op["q"])
        return "taken"

    def do_takec(self, op):
        from pyudunits2 import Converter

        S = self.systems[op["s"]]
        self.slots[op["slot"]] = Converter(S.unit(op["a"]), S.unit(op["b"]))
        return "taken"

    def do_look(self, op):
        u = self.slots.get(op["slot"])
        if u is None:
            return None
        return self.obs_unit(u, op.get("w", ("exp",)))

    def do_lookc(self, op):
        c = self.slots.get(op["slot"])
        if c is None:
            return None
        return float(c.convert(op["v"]))

    def do_mkconv(self, op):
        """A converter between two objects kept by the client."""
        from pyudunits2 import Converter

        a, b = self.slots.get(op["slot"]), self.slots.get(op["slot2"])
        if a is None or b is None:
            return None
        return float(Converter(a, b).convert(op["v"]))

    def do_hexpr(self, op):
        c = self.conv_handle(op.get("s", "db"), *op["c"])
        return str(c.expression)

    # registration
    def do_add(self, op):
        S = self.systems[op["s"]]
        obj = shared_item(op["item"], S, self.shared)
        if op["item"]["t"] == "prefix":
            S.add_prefix(obj)
        else:
            S.add_unit(obj, replace=op.get("replace", False))
        return "added"

    def do_adopt(self, op):
        """Register in one system what another one hands out."""
        from pyudunits2._unit import BasisUnit, NamedUnit

        u = self.systems[op["from"]].unit_by_name_or_symbol(op["q"])
        if not isinstance(u, (BasisUnit, NamedUnit)):
            return "prefixed"
        self.systems[op["s"]].add_unit(u, replace=True)
        return "adopted"

    def do_pad(self, op):
        """A great many registrations of no interest to anybody."""
        S = self.systems[op["s"]]
        mul, pre = op.get("mul", 1), op.get("prefix")
        for i in range(op["at"], op["at"] + op["n"]):
            w = letters(i)
            if pre:
                S.add_prefix(build_item({"t": "prefix", "name": f"pad_{w}_", "value": str((i + 2) * mul),
                                         "symbols": [f"P_{w}_"]}, S))
            else:
                S.add_unit(build_item({"t": "def", "name": [f"pad_{w}", f"pad_{w}_s"], "symbols": [f"P_{w}_"],
                                       "def": f"{(i + 2) * mul} {op['base']}"}, S), replace=mul > 1)
        return [[(i + 2) * mul, S.unit(q.format(letters(i))).expanded()] for i, q in op["ask"]]

    def do_lend(self, op):
        """Register in one system a definition made for another."""
        got = (self.shared or {}).get(("made for", id(self.systems[op["from"]])), {}).get(op["q"])
        if got is not None:
            self.systems[op["s"]].add_unit(got, replace=True)
        return "lent"

    def do_redefine(self, op):
        """A definition is registered again, then asked for."""
        for item in op["items"]:
            self.do_add({"s": op.get("s", "db"), "item": item, "replace": True})
        return self._quietly(op["op"])

    def do_load(self, op):
        from pyudunits2 import UnitSystem

        S = UnitSystem.from_udunits2_xml()
        if "slot" in op:
            self.systems[op["slot"]] = S
        out = []
        for q in op["audit"]:
            try:
                out.append(self.obs_unit(S.unit_by_name_or_symbol(q), ("str", "exp")))
            except PASS:
                raise
            except Exception as e:  # noqa: BLE001
                if e.args == ("injected",):
                    raise
                out.append(canon_error(e))
        return out
