"""C04: reading a unit string is a function of the string alone."""
from ..base import Phase, QueryProp, aim_antlr, barrage, plan_excs, plan_nests, plan_switches
from ..sim import EXC

ATOMS = ["m", "s", "kg", "K", "Pa", "foo", "degC", "°F", "µm", "day", "A1x", "x_y", "lg", "T", "e", "E"]
NUMS = ["1", "0", "-1", "+2", "10", "3.5", ".5", "1.", "1e3", "1E-3", "-2.5e+4", "1.5e", "007", "12345678901234567890"]
DATES = ["2000", "2000-01", "2000-01-01", "1990-1-1 10:20", "2000-01-01T00:00:00", "20000101T1030",
         "2000-01-01 00:00:00 UTC", "2000-01-01 12:34:56.789 -3:30", "-1-1-1", "2000-13-45", "12:34",
         "2000-01-01 00:00:00 +10", "1970-01-01T00:00:00Z", "2000-01-01 25:61:61"]
JUNK = ["", " ", "$", "(", ")", "^", "/", "m^", "m//s", "((m)", "m^n", "--1", "m)", "lg(", "lg(re", "lg(re m",
        "s since", "since 2000", "m^^2", "m**", "*m", "m..s", "\t", "m\ns", "²", "m²³", "ⁿ", "m %", "🙂", "m per",
        "per s", "m per per s", "@", "m @", "@ 2", "ln()", "1 2 3", "1-1", "m - s", "m-", "-", "+", "e5", "1e5e5"]


NUMERALS = [["1000.0", "1e3", "1E3", "1.0e3", "10e2", "1000.00", "1000"], ["2.5", "2.50", "25e-1", "+2.5", "-2.5", "2.5e0"],
            ["2", "2.0", "02", "+2", "2.", "2e0", "-2"], [".5", "0.5", "0.50", "5e-1", "00.5"], ["0", "0.0", "-0", "0e5", "00", "-0.0"],
            ["1e-3", "0.001", "1E-3", "1e-03", ".001"], ["12345678901234567890", "12345678901234567890.0", "12345678901234567891"]]
DATELIKE = [["2000", "2000.0", "2000-01", "2000-1", "2000-01-01", "2000-1-1", "+2000"],
            ["2000-01-01 00:00:00", "2000-01-01T00:00:00", "2000-01-01 00:00", "2000-01-01 0:0:0", "2000-01-01 00:00:00 UTC",
             "2000-01-01 00:00:00Z", "2000-01-01 00:00:00 +0", "20000101T000000"]]


def alike(r):
    """Strings a careless table, memo or key would take for one another."""
    a, b = r.choice(ATOMS), r.choice(ATOMS)
    ns = r.choice(NUMERALS)
    x = r.random()
    if x < 0.35:
        form = r.choice(["{n} {a}", "{a} {n}", "{a} @ {n}", "{n}", "{a}^{n}", "{a}{n}", "lg(re {n} {a})", "{n} {a}/{n}",
                         "{a} since {n}", "({n} {a})^2", "{a}/{n}"])
        g = [form.format(n=n, a=a) for n in ns]
    elif x < 0.5:
        form = r.choice(["days since {n}", "s @ {n}", "{a} from {n}", "h after {n}"])
        g = [form.format(n=n, a=a) for n in r.choice(DATELIKE)]
    elif x < 0.65:
        g = [f"{a}2", f"{a}^2", f"{a}**2", f"{a}²", f"{a} 2", f"{a}+2", f"{a}-2", f"{a}^-2", f"{a}^2.0", f"{a}⁻²", f"{a}*2", f"{a}/2"]
    elif x < 0.75:
        g = [f"{a} {b}", f"{a}*{b}", f"{a}.{b}", f"{a}·{b}", f"{a}-{b}", f"{a}/{b}", f"{a} per {b}", f"{a}  {b}", f"{b} {a}",
             f"({a}) {b}", f"{a}{b}"]
    elif x < 0.85:
        g = [f"{a} {f}(re {ns[0]} {b})" if r.random() < 0.3 else f"{f}(re{c} {b})"
             for f in ("lg", "ln", "lb", "LG") for c in ("", ":")]
    elif x < 0.93:
        q = r.choice([f"{a}/{b}", f"5 {a}", f"{a} since 2000-01-01", f"{a}^2 {b}-1"])
        g = [q, q.upper(), q.lower(), q.swapcase(), " " + q, q + " ", f"({q})", f"(({q}))", q + "s"]
    else:
        g = ["µm", "μm", "um", "Μm", "°C", "degC", "℃", "Å", "Å", "Ω", "Ω", "K", "K"]
    return r.sample(g, min(len(g), r.choice([3, 5, 6])))


def plan_has(plan, kind):
    return any(d["act"][0] == kind for d in plan)


class C04(QueryProp):
    id = "C04"
    quick_runs = 1800
    thorough_runs = 40000
    phases = [Phase("cold", False, 26, 0.5), Phase("warm", True, 80, 0.35),
              Phase("aged", True, 0, 0.15, True)]
    rule = (
        "1-3 clients parsing 1-30 strings each (valid, malformed, dates, unicode) while the shared "
        "prediction tables are cold or warm, with seeded preemption points, asynchronous exceptions "
        "and nested parses inside the parser's own frames, or one read cut short 8-60 times; every structure and every SyntaxError is "
        "compared with a pristine process. Non-trivial: a preemption, exception or nested parse "
        "fired, or a history of at least 8 strings."
    )

    def string(self, r, depth=0):
        x = r.random()
        if x < 0.12:
            return r.choice(JUNK)
        if x < 0.24:
            return (r.choice(["s", "days", "h", "m"]) + r.choice([" since ", " @ ", " from ", "@", " after ", " ref "])
                    + r.choice(DATES + NUMS))
        if x < 0.34:
            return r.choice(["lg", "ln", "lb", "LG", "log"]) + r.choice(["(re ", "(re: ", "( re ", " (re "]) + r.choice(NUMS + [""]) + " " + r.choice(ATOMS) + ")"
        if x < 0.5:
            return r.choice(ATOMS) + r.choice(["2", "-1", "^2", "^-3", "**2", "²", "⁻¹", "+2", "^+1", " 2", "^2.5", "1e2"])
        if x < 0.6:
            return r.choice(NUMS) + r.choice([" ", "", "*"]) + r.choice(ATOMS)
        if x < 0.7 or depth > 2:
            return r.choice(ATOMS)
        op = r.choice([" ", "*", ".", "·", "/", " per ", " / ", "-", "  ", " * "])
        a, b = self.string(r, depth + 1), self.string(r, depth + 1)
        s = a + op + b
        y = r.random()
        if y < 0.25:
            s = "(" + s + ")"
        elif y < 0.35:
            s = "(" + a + ")" + r.choice(["^2", "-1", "/", " "]) + b
        return s

    def make_pool(self, gen, r, n):
        self.floods = [gen.flood(("parse",)) for _ in range(2)]
        pool = [{"o": "parse", "q": q} for q in r.sample(JUNK, min(len(JUNK), n // 5))]
        while len(pool) < n:
            if r.random() < 0.35:
                # one family stays together, at consecutive places
                pool += [{"o": "parse", "q": q} for q in alike(r)]
            else:
                pool.append({"o": "parse", "q": self.string(r)})
        return pool[:n]

    def age_op(self, gen, k):
        r = gen.r
        return {"o": "parse", "q": self.string(r) if r.random() < 0.6 else f"{k} {self.string(r, 2)}"}

    def scenario(self, r, pool, ctx, phase):
        if r.random() < 0.08:
            got = barrage(r, pool, ctx)
            if got:
                audit = [got[0][0]] + [r.choice(pool) for _ in range(4)]
                return {"threads": [got[0]], "plan": got[1], "first": 0, "audit": audit}
        nt = r.choice([1, 1, 2, 2, 3])
        threads = []
        if r.random() < 0.4:
            k = r.randrange(len(pool))
            work = [pool[(k + j) % len(pool)] for j in range(r.choice([3, 5, 8]))]
        else:
            work = r.sample(pool, min(len(pool), r.choice([3, 6, 10, 26])))
        for _ in range(nt):
            m = r.choice([1, 2, 3, 5]) if nt > 1 else r.choice([2, 5, 12, 30])
            threads.append([r.choice(work) for _ in range(m)])
        plan = []
        if nt > 1:
            plan += self.antlr(r, plan_switches(r, threads, ctx, None, r.choice([1, 2, 3, 5])), threads, ctx)
        x = r.random()
        if x < 0.5:
            plan += self.antlr(r, plan_excs(r, threads, ctx, None, r.choice([1, 2, 3]), sorted(EXC)), threads, ctx)
        if r.random() < 0.25:
            plan += self.antlr(r, plan_nests(r, threads, ctx, None, r.choice([1, 2]), work), threads, ctx)
        if phase.warm and nt > 1 and not plan_has(plan, "exc") and r.random() < 0.15:
            # others read more strings than a bounded table holds
            t = r.randrange(1, nt)
            threads[t] = [r.choice(self.floods)]
            plan = [d for d in plan if d["t"] != t]
        audit = [r.choice(work) for _ in range(r.choice([2, 4, 8]))]
        return {"threads": threads, "plan": plan, "first": r.randrange(nt), "audit": audit}

    def antlr(self, r, plan, threads, ctx):
        return aim_antlr(r, plan, threads, ctx, 0.75)

    def nontrivial(self, sc, out):
        return bool(out["fired"]) or len(out["hist"]) >= 8


PROP = C04()
