"""Scenarios over small registries that change while they are used, judged by
the independent model in dst/model.py."""
from __future__ import annotations

from .. import model
from ..base import Phase, QueryProp
from ..harness import HarnessError, Violation
from ..sim import inside

WORDS = ["bax", "cob", "dov", "fij", "gux", "jat", "kov", "lum", "nax", "qip", "rud", "tez", "vok", "wib", "zan"]
SYMS = ["B", "C", "D", "F", "G", "J", "Q", "R", "U", "V", "W", "X"]
ALIASES = ["abra", "acre_x", "aldo", "amok", "anvil", "axle"]
ALSYMS = ["Ab", "Ac", "Ad", "Af", "Ag"]
PREFIXES = [("hyper", ("Y",)), ("pico_", ("Z",)), ("sub", ()), ("omni", ("O",)), ("ergo", ("E_", "I_")), ("yotta_", ())]
BASES = ["mark", "tone"]
VALUES = {b: model.Fraction(p) for b, p in zip(BASES + WORDS, model.BASE_PRIMES * 3)}
# distinct primes for every identifier that may become a base unit
VALUES = {}
_p = 1000003
for _b in BASES + WORDS:
    while any(_p % d == 0 for d in range(2, 1100)):
        _p += 2
    VALUES[_b] = model.Fraction(_p)
    _p += 2
KS = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103,
      107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199]


class Vocabulary:
    """Hands out identifiers; each keeps one kind (name, symbol, alias) for good."""

    def __init__(self, r):
        self.words = WORDS[:]
        self.syms = SYMS[:]
        self.al = ALIASES[:]
        self.als = ALSYMS[:]
        self.ks = KS[:]
        for x in (self.words, self.syms, self.al, self.als, self.ks):
            r.shuffle(x)

    def k(self):
        return self.ks.pop()


def base_items():
    return [{"t": "base", "name": [b, b + "s"], "symbols": []} for b in BASES]


def definition(r, k):
    f = r.choice([[["mark", 1]], [["mark", 1]], [["tone", 1]], [["mark", 2]], [["mark", 1], ["tone", -1]]])
    return {"k": str(k), "f": f}


def make_def(r, v, names, base_p=0.1):
    """An item with the given names; carries its model value source in "term"."""
    item = dict(names)
    if r.random() < base_p and item.get("name") and item["name"][0] in VALUES:
        item["t"] = "base"
        item["term"] = {"k": "1", "f": [[item["name"][0], 1]]}
        return item
    term = definition(r, v.k())
    item["t"] = "def"
    item["term"] = term
    item["def"] = model.term_text(term)
    return item


def fresh_names(r, v):
    n = {}
    w = v.words.pop()
    n["name"] = [w, w + "s"] if r.random() < 0.7 else [w]
    if r.random() < 0.6 and v.syms:
        n["symbols"] = [v.syms.pop()]
    if r.random() < 0.5 and v.al:
        a = v.al.pop()
        n["aliases"] = [[a, a + "s"] if r.random() < 0.5 else [a]]
    if r.random() < 0.25 and v.als:
        n["alias_symbols"] = [v.als.pop()]
    return n


def subset_names(r, item):
    """Some of an item's identifiers, for a partial replacement."""
    n = {}
    if r.random() < 0.75:
        n["name"] = item["name"] if r.random() < 0.6 else item["name"][:1]
    if item.get("symbols") and r.random() < 0.5:
        n["symbols"] = item["symbols"]
    if item.get("aliases") and r.random() < 0.5:
        n["aliases"] = item["aliases"]
    if item.get("alias_symbols") and r.random() < 0.5:
        n["alias_symbols"] = item["alias_symbols"]
    if not n:
        n["name"] = item["name"]
    return n


def read_value(got, values=VALUES):
    """Outcome of a lookup with w=["exp"] -> ("v", Fraction) | ("none",) | ("bad",)"""
    if got[0] == "ok":
        obs = got[1]
        text = obs["exp"] if isinstance(obs, dict) else obs
        try:
            return ("v", model.evaluate(text, values))
        except model.Unreadable:
            return ("bad", text)
    if got[1] == "UnresolvableUnitException":
        return ("none",)
    return ("bad", got)


class RegistryProp(QueryProp):
    needs_db = True
    phases = [Phase("warm", True, 24, 0.9), Phase("cold", False, 4, 0.1)]

    def make_pool(self, gen, r, n):
        return []

    def profile_ops(self, r, ctx, world, ops):
        """Profiles for planning come from one representative per kind."""
        return _Profiles(ctx, world)

    def establish(self, ctx, op):
        pass

    def ops_of(self, sc, out):
        """(op, outcome, start, end, interrupted) of everything that happened."""
        excs = {}
        for i in out["fired"]:
            d = sc["plan"][i]
            if d["act"][0] == "exc":
                excs.setdefault((d["t"], d["op"]), set()).add(d["act"][1])
        rows = []
        for t, i, t0, t1, got in out["hist"]:
            cut = got[0] == "err" and got[1] in excs.get((t, i), ())
            rows.append((sc["threads"][t][i], got, t0, t1, cut))
        for t, i, idx, got, t0, t1 in out["nested"]:
            d = sc["plan"][idx]
            cut = got[0] == "err" and got[1] in excs.get((t, inside(d.get("id"))), ())
            rows.append((d["act"][1], got, t0, t1, cut))
        clock = out["clock"]
        for op, got in zip(sc.get("audit", ()), out.get("audit", ())):
            rows.append((op, got, clock + 1, clock + 2, False))
            clock += 2
        return rows

    def pads(self, r, threads, asked=True):
        """Many registrations besides."""
        if r.random() > 0.15:
            return
        for k in range(r.choice([1, 1, 2])):
            n = r.choice([5, 20, 40, 70, 140, 300])
            t = r.choice(threads)
            pre = r.random() < 0.4
            forms = ["pad_{0}_mark", "P_{0}_mark"] if pre else ["pad_{0}", "pad_{0}_s", "P_{0}_"]
            at = len(t) + 1
            for mul in r.choice([[1], [1], [1, 3], [1, 3, 7]]):
                # all of them, later perhaps all of them anew
                ask = [[1000 * k + r.randrange(n), r.choice(forms)] for _ in range(3 * asked)]
                at = r.randrange(len(t) + 1) if mul == 1 else r.randrange(at + 1, len(t) + 1)
                t.insert(at, {"o": "pad", "s": "A", "at": 1000 * k, "n": n, "base": "mark", "ask": ask,
                              **({"prefix": True} if pre else {}), **({"mul": mul} if mul > 1 else {})})

    def bad_pad(self, rows):
        for op, got, _, _, cut in rows:
            if op["o"] != "pad" or cut:
                continue
            if got[0] != "ok":
                return Violation(f"registration-failed:{got[1]}", {"op": op, "got": got})
            for k, text in got[1]:
                if read_value(["ok", text]) != ("v", k * VALUES["mark"]):
                    return Violation("wrong-meaning", {"op": op, "got": [k, text]})
        return None

    def stuck(self, out):
        if out["dead"]:
            if out["dead"].startswith("harness"):
                raise HarnessError(out["dead"])
            return Violation("stuck:" + out["dead"], {"what": out["dead"]})
        return None

    def nontrivial(self, sc, out):
        return any(o["o"] == "add" for t in sc["threads"] for o in t) and len(out["hist"]) > 1

    def kinds(self, sc, out):
        k = super().kinds(sc, out)
        n = sum(1 for t in sc["threads"] for o in t if o["o"] == "add")
        k["registration during use"] = k.get("registration during use", 0) + n
        return k


class _Profiles:
    def __init__(self, ctx, world):
        self.ctx, self.w = ctx, world

    def profile(self, op, world=None):
        # the op in the initial registry: sites that exist whatever came before
        if op["o"] in ("look", "lookc", "mkconv"):
            return []
        op = {k: v for k, v in op.items() if k != "slot"} if op["o"] not in ("take", "takec") else op
        return self.ctx.profile(op, self.w)
