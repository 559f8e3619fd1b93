"""The storage and terminal simulator below libc (shim/iofault.c)."""
from __future__ import annotations

import ctypes
import os
import subprocess

from .main import ROOT

SRC = os.path.join(ROOT, "dst", "shim", "iofault.c")

CLOCK = os.path.join(ROOT, "dst", "shim", "clock.c")

#: faults that lose nothing: the answer must be as if they had not happened
LOSSLESS = ("short",)


def build(scratch, src=SRC):
    so = os.path.join(scratch, os.path.basename(src)[:-2] + ".so")
    if not os.path.exists(so):
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"], check=True
        )
    return so


def env(scratch):
    return {"LD_PRELOAD": build(scratch)}


def lib():
    L = ctypes.CDLL(None)
    if not hasattr(L, "dst_set"):
        raise RuntimeError("iofault is not preloaded")
    return L


def text(plan):
    return ";".join(f"{t}:{n}:{k}:{a}" for t, n, k, a in plan)


def lossy(fault):
    # libc's own readers and writers retry neither; Python retries EINTR, other
    # readers may not, so EINTR counts as lossy for reads
    t, _, kind, _ = fault
    if kind == "short":
        return False
    if kind == "E4" and t == "w":
        return False
    return True
