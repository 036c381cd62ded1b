"""Runs a template of calls again and again with different inputs in one process and
measures what stays behind."""
import atexit
import collections
import decimal
import gc
import json
import locale
import logging
import os
import signal
import sys
import threading
import warnings

from . import execspec, kernel, ops, seams

ALPHA = "0123456789abcdefghijklmnopqrstuvwxyz"


def word(i):
    """a different 7-character word for every i, over the whole alphabet early on"""
    x = (i * 7919 + 12345) % (36 ** 5)
    s = ""
    for _ in range(5):
        s += ALPHA[x % 36]
        x //= 36
    return ALPHA[i % 36] + s + ALPHA[(i // 36) % 36]


def number(i):
    return str(10**8 + (i * 7919 + 104729 * (i % 10)) % (9 * 10**8))


def fill(x, i):
    if isinstance(x, str):
        if "\x01" in x:
            x = x.replace("\x01", word(i))
        if "\x02" in x:
            x = x.replace("\x02", number(i))
        return x
    if isinstance(x, list):
        return [fill(y, i) for y in x]
    if isinstance(x, dict):
        return {k: fill(v, i) for k, v in x.items()}
    return x


def settings():
    c = decimal.getcontext()
    return {
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1)],
        "timers": [signal.getitimer(signal.ITIMER_REAL)[1]],
        "warning filters": [str(f) for f in warnings.filters],
        "showwarning": str(warnings.showwarning),
        "decimal context": [c.prec, c.rounding, c.capitals, c.clamp, c.Emin, c.Emax,
                            sorted(s.__name__ for s, v in c.traps.items() if v)],
        "threads": len(threading.enumerate()),
        "files": len(os.listdir("/proc/self/fd")),
        "working directory": os.getcwd(),
        "environment": sorted(os.environ.items()),
        "logging": [sorted((n, len(l.handlers), l.level) for n, l in logging.root.manager.loggerDict.items()
                           if isinstance(l, logging.Logger)), len(logging.root.handlers), logging.root.level,
                    logging.root.manager.disable],
        "exit handlers": atexit._ncallbacks(),
        "trace": [str(sys.gettrace()), str(sys.getprofile())],
        "hooks": [str(sys.excepthook), str(sys.displayhook), str(threading.excepthook), str(sys.unraisablehook)],
        "gc": [gc.isenabled(), gc.get_threshold(), len(gc.callbacks)],
        "locale": locale.setlocale(locale.LC_ALL, None),
        "path": list(sys.path),
        "import hooks": [len(sys.meta_path), len(sys.path_hooks)],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "int digits": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(),
    }


class Inject:
    """raise at the n-th monitored step of the operation, in this thread"""

    def __init__(self, gran, scope, step, exc):
        self.K = K = kernel.Kernel(gran=gran, scope=scope, budget=20_000_000)
        t = kernel.T(0, None)
        t.acts = [[step, "raise", exc]]
        K.threads.append(t)
        K._arm(t)

    def run(self, c, op):
        K = self.K
        K._install()
        K.cur = K.threads[0]
        try:
            return c.run(op)
        finally:
            K.cur = None
            K._uninstall()


def once(spec, i, st):
    c = ops.Client()
    for o in spec["template"]:
        o = fill(o, i)
        if o[0] == "abort":
            step = 1 + (o[1] * 31 + i * o[5]) % max(1, o[4])
            inj = Inject(o[2], "treeno", step, o[3])
            r = inj.run(c, o[6])
            if inj.K.log:
                st["aborted"] += 1
            inj = None
        else:
            r = execspec.run_op(c, o)
        st["calls"] += 1
        if r[0] == "err":
            st["errors"] += 1
        r = None


def level():
    sys._clear_type_cache()  # the interpreter's own attribute cache keeps names alive
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks()


def census():
    return collections.Counter(type(o).__name__ for o in gc.get_objects())


def execute(spec):
    gc.enable()  # as in any ordinary process
    st = collections.Counter()
    i = 0
    s0 = settings()
    bad = []

    def run(n, check=0):
        nonlocal i
        for k in range(n):
            once(spec, i, st)
            i += 1
            if check and k % check == 0:
                s = settings()
                if s != s0:
                    for key in s0:
                        if s[key] != s0[key]:
                            bad.append([key, str(s0[key])[:300], str(s[key])[:300], i])
                    return

    run(3, 1)
    run(spec["warm"] - 3, 20)
    a = level()
    run(spec["n"], 30)
    b = level()
    run(spec["n"], 30)
    c = level()
    out = {"levels": [a, b, c], "bad": bad[:6], "n": spec["n"]}
    if not bad and c - b > spec["n"] * spec["rate"] and b - a > spec["n"] * spec["rate"]:
        # a bounded table may still be filling up
        more = []
        run(spec["more"])
        for _ in range(3):
            x = level()
            n0 = census()
            run(spec["n"])
            y = level()
            more.append(y - x)
        out["more"] = more
        out["types"] = [[k, v] for k, v in (census() - n0).most_common(12) if v > spec["n"] * 0.2]
    out["iterations"] = i
    out["stats"] = dict(st)
    return out
