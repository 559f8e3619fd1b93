"""What a process shares with everybody in it: settings, and how to look at them.

``TWEAKS`` change a setting to a legal, unusual value before a run (the caller's
own choice); ``snapshot`` writes all of them down; none may differ after a call.
"""
from __future__ import annotations

import builtins
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings
from hashlib import sha256


def _sha(x):
    return sha256(repr(x).encode()).hexdigest()[:16]


def process_wide():
    import mpmath
    import numpy as np
    import sympy
    from sympy.core.parameters import global_parameters as gp

    um = os.umask(0o22)
    os.umask(um)
    s = {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "digits limit of int": sys.get_int_max_str_digits(),
        "traceback limit": getattr(sys, "tracebacklimit", None),
        "collector enabled": gc.isenabled(),
        "collector thresholds": gc.get_threshold(),
        "collector debugging": gc.get_debug(),
        "collector frozen objects": gc.get_freeze_count() > 0,
        "collector callbacks": len(gc.callbacks),
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook),
                  id(threading.excepthook), id(builtins.__import__)],
        "trace function of new threads": [id(threading.gettrace()), id(threading.getprofile())],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__)],
        "builtins": _sha(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")),
        "module search path": [list(sys.path), [id(x) for x in sys.path_hooks], [id(x) for x in sys.meta_path]],
        "arguments": list(sys.argv),
        "byte code writing": sys.dont_write_bytecode,
        "environment": _sha(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "umask": um,
        "locale": locale.setlocale(locale.LC_ALL, None),
        "time zone": list(__import__("time").tzname),
        "signal handlers": [repr(signal.getsignal(n)) for n in range(1, 32)],
        "timers": [signal.getitimer(k)[1] for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "alarm pending": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "warning hooks": [id(warnings.showwarning), id(warnings.formatwarning), warnings._showwarning_orig is warnings.showwarning],
        "random generator": _sha(random.getstate()),
        "numpy's random generator": _sha([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()]),
        "decimal defaults": [repr(decimal.DefaultContext), repr(decimal.BasicContext), repr(decimal.ExtendedContext)],
        "logging": [logging.root.level, [id(h) for h in logging.root.handlers], len(logging.root.filters),
                    logging.root.manager.disable, id(logging.getLoggerClass()), id(logging.lastResort),
                    logging.raiseExceptions],
        "socket timeout": __import__("socket").getdefaulttimeout(),
        "mpmath precision": [mpmath.mp.prec, mpmath.mp.dps],
        "sympy parameters": [gp.evaluate, gp.distribute, gp.exp_is_pow],
        "sympy printing": _sha(sorted(sympy.StrPrinter._global_settings.items())),
        "thread stack size": threading.stack_size(),
    }
    return s


def of_thread():
    """Belong to one thread (or context) only."""
    import numpy as np

    c = decimal.getcontext()
    return {
        "numpy's error handling": [dict(np.geterr()), id(np.geterrcall()) if np.geterrcall() else None],
        "numpy's printing": _sha(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        # (the signals seen so far are a record, not a setting)
        "decimal context": [c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
                            sorted(k.__name__ for k, v in c.traps.items() if v)],
        "trace and profile function": [id(sys.gettrace()), id(sys.getprofile())],
        "blocked signals": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
    }


# --------------------------------------------------------- the caller's choices
def _np_err(**kw):
    import numpy as np

    np.seterr(**kw)


TWEAKS = {
    "recursion limit": lambda k: sys.setrecursionlimit(1200 + k % 2000),
    "switch interval": lambda k: sys.setswitchinterval(0.001 * (1 + k % 9)),
    "collector enabled": lambda k: gc.enable(),
    "collector thresholds": lambda k: gc.set_threshold(1000 + k % 500, 7, 5),
    "umask": lambda k: os.umask(0o27),
    "warning filters": lambda k: warnings.filterwarnings("ignore", message=f"caller's own {k}"),
    "random generator": lambda k: random.seed(k),
    "environment": lambda k: os.environ.__setitem__("CALLER", str(k)),
    "locale": lambda k: locale.setlocale(locale.LC_ALL, "C"),
    "logging": lambda k: logging.root.setLevel(logging.ERROR),
    "signal handlers": lambda k: signal.signal(signal.SIGUSR1, signal.SIG_IGN),
    "interrupts": lambda k: signal.signal(signal.SIGINT, signal.SIG_IGN),
    "directory": lambda k: os.chdir("/"),
    "digits limit of int": lambda k: sys.set_int_max_str_digits(5000 + k % 100),
    "traceback limit": lambda k: setattr(sys, "tracebacklimit", 3),
}

THREAD_TWEAKS = {
    "decimal precision": lambda k: setattr(decimal.getcontext(), "prec", 3 + k % 20),
    "decimal rounding": lambda k: setattr(decimal.getcontext(), "rounding", decimal.ROUND_UP),
    "numpy's error handling": lambda k: _np_err(divide="ignore", over="ignore", invalid="ignore"),
    "numpy's printing": lambda k: __import__("numpy").set_printoptions(precision=3),
}


def apply(names, k, table):
    for n in names:
        if n in table:
            table[n](k)
