"""The shipped database as an independent reader (xml.etree) sees it: only used
to know which names exist, what defines them and where prefixes are ambiguous."""
from __future__ import annotations

import os
import re
import xml.etree.ElementTree as ET

from . import loader

ID = re.compile(r"^[A-Za-z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u00ff\u00b0\u00b5πΩ]+$")


def _local(tag):
    return tag.rpartition("}")[2] if isinstance(tag, str) else ""


class Entry:
    def __init__(self):
        self.names = []      # singular and explicit or derived plural
        self.symbols = []
        self.alias_names = []
        self.alias_symbols = []
        self.definition = None
        self.base = False

    @property
    def all(self):
        return self.names + self.symbols + self.alias_names + self.alias_symbols


def _names(el):
    sing = plur = None
    noplural = False
    for c in el:
        t = _local(c.tag)
        if t == "singular":
            sing = (c.text or "").strip()
        elif t == "plural":
            plur = (c.text or "").strip()
        elif t == "noplural":
            noplural = True
    if plur is None and not noplural and sing:
        plur = sing + ("es" if sing.endswith(("s", "sh", "ch", "x", "z")) else "s")
    return [x for x in (sing, plur) if x]


class Db:
    def __init__(self, path=None):
        path = path or os.path.join(loader.REPO, loader.PKG, "udunits2_combined.xml")
        root = ET.parse(path).getroot()
        system = next(e for e in root.iter() if _local(e.tag) == "unit-system")
        self.prefixes = []  # (name, [symbols])
        self.entries = []
        for el in system:
            tag = _local(el.tag)
            if tag == "prefix":
                name, syms = None, []
                for c in el:
                    if _local(c.tag) == "name":
                        name = (c.text or "").strip()
                    elif _local(c.tag) == "symbol":
                        syms.append((c.text or "").strip())
                self.prefixes.append((name, syms))
            elif tag == "unit":
                e = Entry()
                for c in el:
                    t = _local(c.tag)
                    if t == "name":
                        e.names += _names(c)
                    elif t == "symbol":
                        e.symbols.append((c.text or "").strip())
                    elif t == "def":
                        e.definition = (c.text or "").strip()
                    elif t in ("base", "dimensionless"):
                        e.base = True
                    elif t == "aliases":
                        for a in c:
                            if _local(a.tag) == "name":
                                e.alias_names += _names(a)
                            elif _local(a.tag) == "symbol":
                                e.alias_symbols.append((a.text or "").strip())
                self.entries.append(e)
        self.known = {n for e in self.entries for n in e.all}
        self.by_name = {n: e for e in self.entries for n in e.all}

    def bases(self, e, _seen=()):
        """Base units an entry is made of, by following its definition."""
        if e.base or not e.definition:
            return frozenset([id(e)])
        out = set()
        for tok in re.findall(r"[^\W\d_]+|°", e.definition):
            d = self.by_name.get(tok)
            if d is None:
                for name, syms in self.prefixes:
                    for p in [name] + syms:
                        if tok.startswith(p) and tok[len(p):] in self.by_name:
                            d = self.by_name[tok[len(p):]]
            if d is not None and d is not e and id(d) not in _seen:
                out |= self.bases(d, _seen + (id(d),))
        return frozenset(out)

    def usable(self):
        """(entry, [identifiers that the grammar can spell]) for every entry."""
        out = []
        for e in self.entries:
            ids = [n for n in e.all if ID.match(n)]
            if ids:
                out.append((e, ids))
        return out

    @property
    def base_names(self):
        return [n for e in self.entries if e.base for n in e.all if ID.match(n)]

    def ambiguous(self):
        """Strings that more than one prefix could claim ("dat": da+t or d+at)."""
        claims = {}
        for name, syms in self.prefixes:
            for p in [name] + syms:
                for n in self.known:
                    if ID.match(n) and ID.match(p or "?"):
                        claims.setdefault(p + n, set()).add(p)
        return sorted(
            s for s, ps in claims.items() if len(ps) > 1 and s not in self.known
        )
