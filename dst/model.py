"""An independent reference model of a unit registry, and the arithmetic to read
an answer of the package as a number.

Every base unit stands for a distinct large prime and every definition carries
its own small factor, so the rational value of an expansion identifies exactly
which definitions it was made from.
"""
from __future__ import annotations

import re
from fractions import Fraction

TOKEN = re.compile(
    r"\s*(?:(\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|([^\W\d]\w*)|(\*\*|[-+·*/^().]))"
)

BASE_PRIMES = [1000003, 1000033, 1000037, 1000039, 1000081, 1000099, 1000117, 1000121]


class Unreadable(Exception):
    pass


def evaluate(text, values):
    """The rational value of an expansion such as (1000·(meter^2))/second."""
    toks = []
    pos = 0
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unreadable(text)
        toks.append(m.group(1) and ("n", Fraction(m.group(1))) or m.group(2) and ("i", m.group(2))
                    or ("o", m.group(3)))
        pos = m.end()
    p = [0]

    def peek():
        return toks[p[0]] if p[0] < len(toks) else (None, None)

    def take():
        t = peek()
        p[0] += 1
        return t

    def expr():
        v = power()
        while True:
            k, o = peek()
            if k == "o" and o in ("·", "*", "."):
                take()
                v = v * power()
            elif k == "o" and o == "/":
                take()
                v = v / power()
            elif k in ("n", "i") or (k == "o" and o == "("):
                v = v * power()
            else:
                return v

    def power():
        v = atom()
        k, o = peek()
        if k == "o" and o in ("^", "**"):
            take()
            e = power()
            if e.denominator != 1 or abs(e) > 64:
                raise Unreadable(text)
            v = v ** int(e)
        return v

    def atom():
        k, o = take()
        if k == "n":
            return o
        if k == "i":
            if o not in values:
                raise Unreadable(f"{o} in {text}")
            return values[o]
        if k == "o" and o == "-":
            return -power()
        if k == "o" and o == "+":
            return power()
        if k == "o" and o == "(":
            v = expr()
            if take() != ("o", ")"):
                raise Unreadable(text)
            return v
        raise Unreadable(text)

    try:
        v = expr()
    except (ZeroDivisionError, RecursionError) as e:
        raise Unreadable(text) from e
    if p[0] != len(toks):
        raise Unreadable(text)
    return v


def term_value(term, lookup):
    """term: {"k": "3.5", "f": [[name, exponent], ...]} -> Fraction | None."""
    v = Fraction(term["k"])
    for name, e in term["f"]:
        x = lookup(name)
        if x is None:
            return None
        v *= x ** e
    return v


def term_text(term, sep=" "):
    """How a client spells the term."""
    out = [] if term["k"] == "1" and term["f"] else [term["k"]]
    for name, e in term["f"]:
        out.append(name if e == 1 else f"{name}^{e}")
    return sep.join(out)


def item_names(item):
    """name kind -> identifiers an item registers"""
    out = []
    if item.get("name"):
        out += [("name", n) for n in item["name"] if n]
    out += [("symbol", s) for s in item.get("symbols", ())]
    for a in item.get("aliases", ()):
        out += [("alias_name", n) for n in a if n]
    out += [("alias_symbol", s) for s in item.get("alias_symbols", ())]
    return out


# ----------------------------------------------------------- linearizability
def linearizable(ops, initial):
    """ops: list of (start, end, kind, value); kind "w" write, "m" a write that
    may or may not take effect, "r" read.  Small histories only."""
    ops = sorted(ops, key=lambda o: (o[0], o[1]))
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, initial)]
    while stack:
        done, cur = stack.pop()
        if done == full:
            return True
        if (done, cur) in seen:
            continue
        seen.add((done, cur))
        # an operation may go next if no other pending one ended before it began
        horizon = min(o[1] for i, o in enumerate(ops) if not done >> i & 1)
        for i, o in enumerate(ops):
            if done >> i & 1 or o[0] > horizon:
                continue
            if o[2] == "w":
                stack.append((done | 1 << i, o[3]))
            elif o[2] == "m":
                stack.append((done | 1 << i, o[3]))
                stack.append((done | 1 << i, cur))
            elif o[3] == cur:
                stack.append((done | 1 << i, cur))
    return False


def possible(ops, initial, start, end):
    """Values a register may hold at some moment of [start, end]."""
    writes = [o for o in ops if o[2] in "wm" and o[0] <= end]
    out = set()
    sure = [o for o in writes if o[2] == "w" and o[1] < start]
    last = max((o[0] for o in sure), default=None)
    for o in writes:
        # overwritten for certain before the read began?
        if any(s is not o and s[0] > o[1] for s in sure):
            continue
        out.add(o[3])
    if last is None:
        out.add(initial)
    return out
