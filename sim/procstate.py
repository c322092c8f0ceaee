"""Process-wide state a library has no business changing."""
import builtins
import decimal
import gc
import locale
import logging
import math
import os
import random
import signal
import sys
import threading
import warnings


def _ids(mapping):
    return {k: id(v) for k, v in mapping.items() if k != "_"}


def snapshot(w=None):
    mask = os.umask(0o022)
    os.umask(mask)
    out = {
        "random state": hash(random.getstate()),
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [repr(signal.getsignal(s)) for s in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE,
                             signal.SIGUSR1)],
        "alarm timer": signal.getitimer(signal.ITIMER_VIRTUAL),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": mask,
        "warnings filters": repr(warnings.filters),
        "decimal context": repr(decimal.getcontext()),
        "trace": repr(sys.gettrace()),
        "profile": repr(sys.getprofile()),
        "gc": [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        "switch interval": sys.getswitchinterval(),
        "int digits": sys.get_int_max_str_digits(),
        "locale": locale.setlocale(locale.LC_ALL),
        "excepthook": id(sys.excepthook),
        "displayhook": id(sys.displayhook),
        "stdout": id(sys.stdout),
        "stderr": id(sys.stderr),
        "path": list(sys.path),
        "meta path": [id(x) for x in sys.meta_path],
        "builtins": _ids(vars(builtins)),
        "math": _ids(vars(math)),
        "threads": threading.active_count(),
    }
    root = logging.root
    out["logging"] = [root.level, len(root.handlers), root.manager.disable]
    if w is not None and getattr(w, "rand", None) is not None:
        out["random state (library)"] = hash(w.rand.getstate())
        out["environment (library)"] = dict(w.environ)
        out["builtins (library)"] = _ids(w.builtins)
        out["math (library)"] = _ids(vars(w.shims["math"]))
    return out


def changes(a, b):
    return ["%s" % k for k in sorted(set(a) | set(b)) if k in a and a.get(k) != b.get(k)]
