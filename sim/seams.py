"""Seams installed in every simulated process before treeno is imported: locks, thread
start, sleep and clocks belong to the simulator.  (Scheduling itself: kernel.py.)"""
import _thread
import random
import sys
import threading
import time

REAL_ALLOCATE = _thread.allocate_lock
REAL_START = _thread.start_new_thread
REAL_MONO = time.monotonic
REAL_SLEEP = time.sleep

KERNEL = None  # set by kernel.Kernel while a simulated phase runs


class SimDeadlock(RuntimeError):
    pass


class Clock:
    now = 1_700_000_000.0
    jumps = 0

    @classmethod
    def tick(cls):
        cls.now += 1e-6
        return cls.now


class SimLock:
    """threading.Lock under the simulator (also usable outside a simulated phase)."""

    _re = False

    def __init__(self):
        self.owner = None
        self.count = 0
        f = sys._getframe(1)
        while f is not None and f.f_globals.get("__name__") in ("sim.seams", "threading"):
            f = f.f_back
        self.site = "?" if f is None else "%s:%s" % (f.f_globals.get("__name__"), f.f_lineno)  # where it was made

    def _me(self):
        k = KERNEL
        return k.cur if k is not None and k.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._re and self.owner is me and self.count:
            self.count += 1
            return True
        if KERNEL is not None and blocking:
            KERNEL.before_lock(self)
        while self.count:
            if not blocking:
                return False
            k = KERNEL
            if k is None or k.cur is None:
                if timeout is not None and timeout >= 0:
                    Clock.now += timeout
                    return False
                raise SimDeadlock("lock is never released")
            if not k.block(self, timeout if timeout is not None and timeout >= 0 else None):
                return False
        self.owner = me
        self.count = 1
        if me.__class__ is not str:
            me.held.append(self)
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        if self._re and self.owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            o, self.owner = self.owner, None
            if o.__class__ is not str and o is not None and self in o.held:
                o.held.remove(self)

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    _re = True

    def _is_owned(self):
        return bool(self.count) and self.owner is self._me()

    def _release_save(self):
        s = (self.count, self.owner)
        self.count, self.owner = 0, None
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count, self.owner = s

    def _recursion_count(self):
        return self.count if self.owner is self._me() else 0


def _lock():
    return SimLock()


def _rlock(*a, **k):
    return SimRLock()


def _sleep(secs):
    k = KERNEL
    if k is not None and k.cur is not None:
        k.sleep(secs)
    else:
        Clock.now += secs


def _start(fn, args, kwargs=None):
    k = KERNEL
    if k is not None and k.cur is not None:
        return k.spawn(fn, args, kwargs or {})
    return REAL_START(fn, args, kwargs or {})


def _sentinel():
    l = SimLock()
    k = KERNEL
    if k is not None and k.cur is not None:
        k.cur.sentinels.append(l)
    return l


class _ThreadShim:
    """stands in for _thread inside the import system"""

    RLock = staticmethod(_rlock)
    allocate_lock = staticmethod(_lock)

    def get_ident(self):
        k = KERNEL
        if k is not None and k.cur is not None:
            return 1000000 + k.cur.tid
        return _thread.get_ident()

    def __getattr__(self, n):
        return getattr(_thread, n)


def install():
    import importlib._bootstrap as b
    import queue

    threading.Lock = threading._allocate_lock = _thread.allocate_lock = _lock
    threading.RLock = threading._CRLock = _thread.RLock = _rlock
    threading._start_new_thread = _thread.start_new_thread = _start
    threading._set_sentinel = _thread._set_sentinel = _sentinel
    b._thread = _ThreadShim()
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
    time.time = time.monotonic = time.perf_counter = Clock.tick
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(
        Clock.tick() * 1e9
    )
    random.seed(12345)
