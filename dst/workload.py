"""Generators of simulated clients' operations over the shipped database."""
from __future__ import annotations

FAILING = [
    "m^", "m//s", "((m)", "m^n", "--1", "m per /s", "s @ UTC", "$", "m m-", "lg(re )",
    "xyzzy", "foo_bar", "kilo", "deka", "k", "xyzzy m", "m xyzzy2", "kfoo", "mm_m",
    "lg(re xyzzy)", "m (s @ 2000)", "m @ 2000-01-01T00:00", "2 (s since 1990-01-01)",
    "lg(re m) lg(re s)", "metermeter", "kilokilometer", "qwerty/s", "hours from 1990-1-1 -20:4:18 +2",
]

DATES = [
    "days since 2000-01-01", "hours since 1970-01-01T00:00:00 UTC", "s @ 2000",
    "minutes since 1990", "kilohours since 2000-01-01T00:00", "weeks since 1999-12-31 23:59:59.999",
]

OFFSETS = [
    ("degC", "K"), ("K", "degF"), ("degF", "degC"), ("celsius", "fahrenheit"), ("m @ 5", "km"),
    ("km @ 2", "m @ 3"), ("degC @ 10", "K"), ("mdegC", "K"), ("s", "minute @ 1"), ("2 degC", "degF"),
    ("K", "degree_rankine"), ("1/degC", "1/K"),
]

LOGS = ["lg(re {a})", "ln(re {a})", "lb(re {a})", "0.1 lg(re 1 {a})", "2 lg(re {a})"]


class Gen:
    def __init__(self, db, rnd):
        self.db = db
        self.r = rnd
        self.usable = db.usable()
        self.amb = db.ambiguous()
        #: entries whose comparison is cheap (at most two base units)
        self.light = [(e, ids) for e, ids in self.usable if len(db.bases(e)) <= 2]
        self.cheap = False

    def pick(self):
        if self.cheap and self.r.random() < 0.95:
            return self.r.choice(self.light)
        return self.r.choice(self.usable)

    def ident(self, entry=None):
        r = self.r
        if entry is None:
            entry, ids = self.pick()
        else:
            ids = [n for e, ns in self.usable if e is entry for n in ns]
        n = r.choice(ids)
        x = r.random()
        if x < 0.30:
            name, syms = r.choice(self.db.prefixes)
            n = r.choice([name] + syms) + n
        elif x < 0.33 and self.amb:
            n = r.choice(self.amb)
        return n

    def query(self, entry=None, depth=0):
        r = self.r
        x = r.random()
        a = self.ident(entry)
        if x < 0.40 or depth > 1:
            return a
        b = self.ident()
        if x < 0.50:
            return r.choice(["{a}/{b}", "{a} per {b}", "{a} / {b}"]).format(a=a, b=b)
        if x < 0.60:
            return r.choice(["{a} {b}", "{a}*{b}", "{a}.{b}", "{a}·{b}"]).format(a=a, b=b)
        if x < 0.70:
            return r.choice(["{a}^2", "{a}2", "{a}-1", "{a}^-2", "({a})^3", "{a} {b}-1", "{a}2 {b}-2"]).format(a=a, b=b)
        if x < 0.80:
            return r.choice(["5 {a}", "1e-3 {a}", "{a} 1000", "2.5 {a}", "(3 {a})", "{a}/60"]).format(a=a)
        if x < 0.84:
            return r.choice(LOGS[:1] if self.cheap and r.random() < 0.8 else LOGS).format(a=a)
        if x < 0.87:
            return r.choice(["{a} @ 273.15", "({a} @ 5)", "{a} from 2"]).format(a=a)
        if x < 0.90:
            return r.choice(DATES)
        if x < 0.95:
            return r.choice(FAILING)
        return "(" + self.query(None, depth + 1) + ")/" + b

    def flood(self, kinds=("unit", "unit", "name", "conv"), sizes=(135, 135, 135, 270, 270, 540, 540, 1100)):
        """More different questions than a small cache can hold the answers of."""
        r = self.r
        kind = r.choice(kinds)
        n = r.choice(sizes)
        if kind == "conv":
            a, b = r.choice([("m", "km"), ("s", "hour"), ("kg", "g")])
            return {"o": "flood", "k": kind, "q": [[f"{i + 2} {a}", b] for i in range(min(n, 135))]}
        if kind == "name":
            seen = {self.ident() for _ in range(2 * n)}
            return {"o": "flood", "k": kind, "q": sorted(seen)[:n]}
        if kind == "parse":
            return {"o": "flood", "k": kind, "q": [f"{i} m" if i % 3 else f"m/{i} s" for i in range(n)]}
        a, b = self.ident(), self.ident()
        return {"o": "flood", "k": kind, "q": [f"{i + 2} {b if i % 7 == 0 else a}" for i in range(n)]}

    def churn(self):
        """Pairs whose comparisons differ: short-lived units of equal shape."""
        r = self.r
        like = [("m", "km"), ("kg", "g"), ("hour", "s"), ("K", "degC"), ("m", "ft"), ("m2", "km m"), ("rad", "1")]
        unlike = [("m", "s"), ("K", "kg"), ("day", "m"), ("m", "s-1"), ("m", "m2"), ("A", "mol"), ("cd", "K")]
        k = r.choice([2, 3, 5])
        pairs = r.sample(like, k) + r.sample(unlike, k)
        out = []
        for a, b in pairs:
            n = r.randint(2, 60)
            a, b = r.choice([(a, b), (f"{n} {a}", b), (f"{n} {a}", f"{n + 1} {b}"), (b, a)])
            out.append({"o": "compat", "a": a, "b": b})
        return out

    def vals(self):
        r = self.r
        return r.choice(
            [
                [["i", 10]],
                [["f", 1.5], ["i", 0]],
                [["nd", "float64", [3], [32.0, 15.0, -20.0]]],
                [["nd", "int64", [2, 2], [1, 2, 3, 4]], ["f", 3.25]],
            ]
        )

    def pair(self):
        """Two queries which often are convertible."""
        r = self.r
        if r.random() < 0.25:
            return r.choice(OFFSETS)
        e, ids = self.pick()
        a = self.ident(e)
        x = r.random()
        if x < 0.45:
            return a, self.ident(e)
        if x < 0.70 and e.definition and not any(c in e.definition for c in "'\"%"):
            return a, e.definition
        if x < 0.80:
            return "1/" + a, self.ident(e)
        if x < 0.82:
            return r.choice(LOGS[:3]).format(a=a), a
        if x < 0.90:
            return "5 " + a, a + "^2/" + a
        return a, self.query()

    def op(self, entry=None, cheap=0.6):
        """One stand-alone query operation."""
        r = self.r
        x = r.random()
        if x < cheap:
            return {"o": "unit", "q": self.query(entry), "w": ["str", "exp"]}
        if x < cheap + 0.01:
            return {"o": "scribble", "q": r.choice(self.db.base_names)}
        if x < cheap + 0.02:
            return {"o": "forget"}
        if x < cheap + 0.08:
            return {"o": "name", "q": self.ident(entry), "w": ["str", "exp"]}
        if r.random() < 0.42:
            # no symbolic algebra in these: any entry will do
            return self._dims(entry, False)
        self.cheap = True
        try:
            return self._deep(entry)
        finally:
            self.cheap = False

    def _dims(self, entry, shared):
        r = self.r
        if r.random() < 0.6:
            op = {"w": r.choice([["str", "dim", "flags"], ["dim"], ["dim", "exp"]])}
            op.update({"o": "hobs", "h": self.query(entry)} if shared else {"o": "unit", "q": self.query(entry)})
            return op
        a, b = self.pair() if entry is None else (self.ident(entry), self.ident(entry))
        if entry is not None and r.random() < 0.5:
            a = self.query(entry)
        return {"o": "hcompat", "h": a, "h2": b} if shared else {"o": "compat", "a": a, "b": b}

    def equals(self):
        """Comparisons and conversions among shared units which mean the same."""
        r = self.r
        a, p, n = r.choice([("m", "k", "1000"), ("g", "m", "0.001"), ("s", "m", "0.001"), ("K", "k", "1000"), ("Pa", "h", "100")])
        forms = [p + a, f"{n} {a}", f"{a} {n}", f"({n} {a})", f"{n} {a}2/{a}", f"{p}{a} {a}/{a}", f"lg(re {p}{a})", f"lg(re {n} {a})",
                 f"({p}{a} @ 1)", f"({n} {a}) @ 1"]
        forms = r.sample(forms, 6)
        ops = []
        for _ in range(8):
            x, y = r.sample(forms, 2)
            op = {"o": r.choice(["heq", "heq", "heq", "hconv", "hcompat"]), "h": x, "h2": y}
            if op["o"] == "hconv":
                op["v"] = self.vals()
            ops.append(op)
        return ops

    def dims(self):
        """Dimensionalities of a unit of several base units and of what is made from it."""
        r = self.r
        many = [e for e, _ in self.usable if len(self.db.bases(e)) > 2]
        e = r.choice(many)
        a, b, c = self.ident(e), self.ident(e), self.ident()
        forms = [a, b, f"{a} {c}", f"{a}/{c}", f"{c} {a}", f"{a}2", f"1/{a}", f"{a} {b}-1", f"5 {a}", f"({a} {c})/{b}"]
        ops = []
        for q in r.sample(forms, 5):
            x = r.random()
            if x < 0.5:
                ops.append({"o": "unit", "q": q, "w": ["dim"]})
            elif x < 0.7:
                ops.append({"o": "hobs", "h": q, "w": ["dim", "flags"]})
            elif x < 0.85:
                ops.append({"o": "compat", "a": q, "b": r.choice([a, b])})
            else:
                ops.append({"o": "hcompat", "h": q, "h2": r.choice([a, b])})
        return ops

    def _deep(self, entry):
        r = self.r
        y = r.random()
        if entry is not None and len(self.db.bases(entry)) > 2 and r.random() < 0.9:
            entry = None
        a, b = self.pair() if entry is None else (self.ident(entry), self.ident(entry))
        if y < 0.70:
            return {"o": "conv", "a": a, "b": b, "v": self.vals()}
        return {"o": "eq", "a": a, "b": b}

    def hop(self, entry=None):
        """One operation on objects all clients share."""
        if self.r.random() < 0.35:
            return self._dims(entry, True)
        self.cheap = True
        try:
            return self._hop(entry)
        finally:
            self.cheap = False

    def _hop(self, entry):
        r = self.r
        if entry is not None and len(self.db.bases(entry)) > 2 and r.random() < 0.9:
            entry = None
        a, b = self.pair() if entry is None else (self.ident(entry), self.ident(entry))
        y = r.random()
        if y < 0.25:
            return {"o": "hobs", "h": a, "w": ["str", "exp"]}
        if y < 0.70:
            return {"o": "hconv", "h": a, "h2": b, "v": self.vals()}
        return {"o": "heq", "h": a, "h2": b}

    # -- operations that a careless cache, table or buffer would confuse
    def family(self):
        """Operations over strings that look alike but differ (or differ but
        mean the same): case, blanks, exponents, number forms, log bases,
        offsets, reference dates."""
        r = self.r
        self.cheap = True
        try:
            a, b = self.ident(), self.ident()
        finally:
            self.cheap = False
        n = r.choice([2, 3, 10, 1000])
        if self.amb and r.random() < 0.1:
            return self.rivals()
        if r.random() < 0.12:
            return self.brackets()
        groups = [
            [a, a.swapcase(), a.lower(), a.upper(), " " + a + " ", a + "s", "(" + a + ")"],
            [f"{a}2", f"{a}-2", f"{a}^2", f"{a} 2", f"{a}^-2", f"{a}*2", f"{a}+2", f"{a}/2", f"{a} -2"],
            [f"{n} {a}", f"{n}.0 {a}", f"{n}e0 {a}", f"-{n} {a}", f"{a} {n}", f"{n}{a}", f"0{n} {a}"],
            [f"lg(re {a})", f"ln(re {a})", f"lb(re {a})", f"lg(re 1 {a})", f"lg(re {n} {a})", f"lg({a})"],
            [f"{a} @ {n}", f"{a} @ -{n}", f"{a} @ {n}.0", f"{a} from {n}", f"{a} after {n}", a],
            [f"{a} {b}", f"{b} {a}", f"{a}.{b}", f"{a}*{b}", f"{a}/{b}", f"{b}/{a}", f"{a}  {b}", f"{a}·{b}"],
            [f"{a}/{b}/{a}", f"{a}/({b}/{a})", f"({a}/{b})/{a}", f"{a}/{b} {a}", f"{a}/({b} {a})"],
            ["days since 2000-01-01", "days since 2000-01-02", "hours since 2000-01-01",
             "days since 2000-01-01T00:00:01", "days from 2000-01-01", "days @ 2000", "days",
             "day since 2000-01-01", "days since 2000-01-01 +1", "kilodays since 2000-01-01"],
            [f"k{a}", f"kilo{a}", f"K{a}", f"m{a}", f"M{a}", f"mega{a}", f"milli{a}", f"da{a}", f"d{a}"],
            self.twice(a),
            [f"{a}^0", f"{a}0", f"{a}^1", f"{a}1", a, f"{a}¹", f"{a}²", f"{a}⁻¹", f"{a}-1"],
        ]
        g = r.choice(groups)
        g = r.sample(g, min(len(g), r.randint(4, 7)))
        what = r.choice([["str", "exp"], ["str", "exp"], ["exp", "flags"], ["str", "dim"]])
        if "days" in g[0] or "lg" in g[0]:
            what = ["str", "exp"]
        ops = [{"o": "unit", "q": q, "w": what} for q in g]
        x = r.random()
        if x < 0.25 and len(g) > 2:
            v = self.vals()
            ops += [{"o": "conv", "a": g[0], "b": g[1], "v": v},
                    {"o": "conv", "a": g[1], "b": g[0], "v": v}]
        elif x < 0.45 and len(g) > 2:
            ops += [{"o": "eq", "a": g[0], "b": g[1]}, {"o": "eq", "a": g[0], "b": g[0]},
                    {"o": "compat", "a": g[0], "b": g[2]}]
        return ops

    def brackets(self):
        """What differs only in where the parentheses are."""
        r = self.r
        self.cheap = True
        try:
            a, b, c = self.ident(), self.ident(), self.ident()
        finally:
            self.cheap = False
        g = r.choice([
            [f"{a}/({b} {c})", f"{a}/{b} {c}", f"({a}/{b}) {c}", f"{a}/({b}/{c})", f"{a}/{b}/{c}", f"{a}/({b}.{c})"],
            [f"({a} {b})^2 {c}", f"{a} {b}^2 {c}", f"({a} {b} {c})^2", f"{a} ({b} {c})^2", f"{a} {b} {c}^2"],
            [f"({a}/{b})-1 {c}", f"{a}/{b}-1 {c}", f"({a}/{b} {c})-1", f"{a}/{b} {c}-1", f"{a}/({b} {c}-1)"],
            [f"lg(re {a}) {b}", f"lg(re {a} {b})", f"lg(re ({a} {b}))", f"lg(re {a}/{b})"],
            [f"({a} @ 2) {b}", f"{a} {b} @ 2", f"({a} {b}) @ 2", f"{a} ({b} @ 2)"],
        ])
        g = r.sample(g, min(len(g), 5))
        ops = [{"o": "unit", "q": q, "w": r.choice([["dim"], ["exp", "dim"], ["str", "dim", "flags"]])} for q in g]
        if "lg" in g[0] or "@" in g[0]:
            return ops
        for x, y in (r.sample(g, 2), r.sample(g, 2)):
            k = r.choice(["compat", "compat", "hcompat"])
            ops.append({"o": k, "h": x, "h2": y} if k[0] == "h" else {"o": k, "a": x, "b": y})
        return ops

    def rivals(self):
        """A string that two prefixes can claim, among others with either prefix."""
        r = self.r
        w = r.choice(self.amb)
        all_ = [p for name, syms in self.db.prefixes for p in [name] + syms]
        mine = [p for p in all_ if w.startswith(p)]
        e, ids = self.pick()
        a = r.choice(ids)
        qs = [w, w] + [p + a for p in mine] + [p + "m" for p in mine] + [p + "g" for p in mine] + ["5 " + w, w + "2"]
        return [{"o": "unit", "q": q, "w": ["str", "exp"]} for q in r.sample(qs, len(qs))]

    def twice(self, a):
        """Prefixes before prefixes: never a unit, unless something remembers too much."""
        r = self.r
        (n1, s1), (n2, s2) = r.choice(self.db.prefixes), r.choice(self.db.prefixes)
        p, q = r.choice([n1] + s1), r.choice([n2] + s2)
        e, ids = self.pick()
        a = r.choice(ids)
        return [p + a, q + p + a, p + p + a, q + a, p + q + a, q + p + a + "s", p + q, a, q + p]

    def cluster(self, n=None):
        """Operations around one database entry: collisions on shared state."""
        r = self.r
        if r.random() < 0.15:
            return r.sample(self.dims(), 4)[:n]
        e, _ = self.pick()
        return [self.op(e) if r.random() < 0.65 else self.hop(e)
                for _ in range(n or r.randint(2, 4))]

    NUMS = [["i", 5], ["f", 5.0], ["frac", "5"], ["dec", "5"], ["np", "float32", 5.0],
            ["np", "int64", 5], ["i", 0], ["f", -0.0], ["f", 0.0], ["i", 1], ["f", 1.0],
            ["f", 273.15], ["f", 1e300], ["f", float("inf")], ["i", -40],
            ["nd", "float64", [1], [5.0]], ["nd", "float64", [3], [1.0, 2.0, 3.0]],
            ["nd", "float32", [3], [1.0, 2.0, 3.0]], ["nd", "int32", [3], [1, 2, 3]],
            ["nd", "float64", [0], []], ["nd", "float64", [], [7.5]],
            ["nd", "float64", [2, 2], [1.0, 0.0, -1.0, 4.0]]]
