"""Import seam.

Imports the package under test from /repo's working tree through a finder of
our own, so that (a) no bytecode cache is ever read or written, (b) every code
object of the package is registered and can be instrumented as a scheduling /
fault point, and (c) the git-ignored ``_version`` module may be missing.
"""
from __future__ import annotations

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pyudunits2"

#: id(code) -> (code, relpath, group)
CODES: dict[int, tuple[types.CodeType, str, str]] = {}
#: "relpath:qualname:firstline" -> code
BY_NAME: dict[str, types.CodeType] = {}


def group_of(rel: str) -> str:
    if rel.startswith(("_grammar/_antlr4_runtime/", "_grammar/parser/")):
        return "antlr"
    return "core"


def _register(code: types.CodeType, rel: str) -> None:
    if id(code) in CODES:
        return
    CODES[id(code)] = (code, rel, group_of(rel))
    BY_NAME[f"{rel}:{code.co_qualname}:{code.co_firstlineno}"] = code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _register(const, rel)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        code = compile(data, path, "exec", dont_inherit=True)
        rel = os.path.relpath(path, os.path.join(REPO, PKG))
        _register(code, rel)
        return code


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = "0+simulated"


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [REPO] if fullname == PKG else path
        )
        if spec is None:
            if fullname == PKG + "._version":
                return importlib.util.spec_from_loader(fullname, _VersionLoader())
            return None
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(fullname, spec.loader.path)
        return spec


def install() -> None:
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


#: Modules which are only imported lazily, from inside functions.
LAZY = (
    "_expr.sympy",
    "_expr.split",
    "_expr.substitute",
    "_expr.dimensionality",
    "_expr.atoms",
    "_udunits2_xml_parser",
    "__main__",
)


def import_all() -> None:
    """Import every non-test module of the package that normal use can reach."""
    import importlib

    importlib.import_module(PKG)
    root = os.path.join(REPO, PKG)
    for dirpath, dirnames, filenames in os.walk(root):
        dirnames[:] = sorted(d for d in dirnames if d not in ("tests", "__pycache__"))
        for f in sorted(filenames):
            if not f.endswith(".py") or f in ("compile.py", "__init__.py"):
                continue
            rel = os.path.relpath(os.path.join(dirpath, f), root)
            if rel.startswith("_grammar/_antlr4_runtime/") or rel == "_version.py":
                continue
            mod = PKG + "." + rel[:-3].replace(os.sep, ".")
            try:
                importlib.import_module(mod)
            except ImportError:
                # A module nobody can import is not part of what runs.
                pass
