"""The scheduler: client threads are real threads of which exactly one runs, parked on
private locks; sys.monitoring events of code in scope are the preemption points.
Everything that happens is a function of the explicit plan of the run."""
import ast
import dis
import gc
import os
import sys

from . import desc, seams

MON = sys.monitoring
TOOL = 3
EV = MON.events

# set by procs.boot(): prefixes of the code under simulation
ROOT = os.environ.get("SIM_REPO", "/repo") + "/treeno/"
GEN = ROOT + "grammar/gen/"
BIN = os.environ.get("SIM_REPO", "/repo") + "/bin/"


class Aborted(BaseException):
    """an asynchronously delivered exception of the application"""


EXC = {
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "Aborted": Aborted,
    "TimeoutError": TimeoutError,
    "RecursionError": RecursionError,
}


def in_scope(code, scope):
    f = code.co_filename
    if f.startswith(GEN):
        return scope not in ("treeno", "cli", "script")
    if scope == "script":
        return f.startswith(BIN)
    if f.startswith(ROOT) or f.startswith("<attrs generated"):
        return True
    if scope == "antlr":
        return "/antlr4/" in f
    if scope == "cli":
        return "/click/" in f or "/typer/" in f
    return False


# ---- fault points: not inside clean-up code -------------------------------------
_REGIONS = {}


def regions(filename):
    r = _REGIONS.get(filename)
    if r is not None:
        return r
    bad = set()
    try:
        tree = ast.parse(open(filename, encoding="utf-8").read())
    except (OSError, SyntaxError):
        _REGIONS[filename] = bad
        return bad

    def block(stmts):
        for s in stmts:
            bad.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))

    for n in ast.walk(tree):
        if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            bad.add(n.lineno)
            for h in n.handlers:
                bad.add(h.lineno)
                block(h.body)
            block(n.finalbody)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            last = max((i.context_expr.end_lineno or n.lineno) for i in n.items)
            bad.update(range(n.lineno, max(last, n.lineno) + 1))
    _REGIONS[filename] = bad
    return bad


_NOFAULT = {"__exit__", "__enter__", "__del__", "__aexit__", "__aenter__"}


def fault_ok(frame):
    """May an asynchronous exception be delivered here?  Not while clean-up code
    (finally, except, with entry/exit) is on the stack: no code can survive that."""
    while frame is not None:
        c = frame.f_code
        f = c.co_filename
        if f.startswith(ROOT) or f.startswith(BIN):
            if c.co_name in _NOFAULT or frame.f_lineno in regions(f):
                return False
        elif c.co_name in _NOFAULT:
            return False
        frame = frame.f_back
    return True


# ---- locations that touch state shared between calls (guides the search only) ------
_MUTATORS = {
    "append", "add", "pop", "clear", "update", "discard", "setdefault", "extend", "insert",
    "remove", "popitem", "move_to_end", "sort", "reverse", "popleft", "appendleft",
}
_PLAIN = (str, bytes, int, float, complex, tuple, frozenset, type(None), type(dis), type(lambda: 0), type(len))


def hot_spots(code, globs):
    """{offset-or-line: tier} of instructions that read or write module globals, class
    attributes or closures holding mutable objects (1), or write to any object (2)."""
    out = {}
    if code.co_filename.startswith("<attrs"):
        return out
    line = code.co_firstlineno
    init = code.co_name in ("__init__", "__attrs_post_init__")
    for ins in dis.get_instructions(code):
        if ins.positions is not None and ins.positions.lineno is not None:
            line = ins.positions.lineno
        tier = 0
        op, a = ins.opname, ins.argval
        if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            tier = 1
        elif op in ("LOAD_GLOBAL", "LOAD_NAME"):
            v = globs.get(a)
            if v is not None and not isinstance(v, _PLAIN) and not isinstance(v, type):
                if not type(v).__module__.startswith(("typing", "enum", "_thread")):
                    tier = 1
        elif op in ("LOAD_DEREF", "STORE_DEREF") and a in code.co_freevars and a != "__class__":
            tier = 1
        elif not init and op in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_SUBSCR"):
            tier = 2
        elif not init and op in ("LOAD_ATTR", "LOAD_METHOD") and a in _MUTATORS:
            tier = 2
        if tier:
            for k in (ins.offset, ("L", line)):
                out[k] = min(tier, out.get(k, 9))
    return out


class T:
    __slots__ = (
        "tid", "body", "lock", "state", "n", "acts", "ai", "next_at", "wake_at",
        "waiting", "timed_out", "sentinels", "held",
    )

    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.lock = seams.REAL_ALLOCATE()
        self.lock.acquire()
        self.state = "new"
        self.n = 0
        self.acts = []
        self.ai = 0
        self.next_at = -1
        self.wake_at = None
        self.waiting = None
        self.timed_out = False
        self.sentinels = []
        self.held = []


class Kernel:
    def __init__(self, gran="line", scope="treeno", budget=2_000_000, profile=0):
        self.gran, self.scope, self.budget = gran, scope, budget
        self.profile = profile
        self.threads = []
        self.cur = None
        self.main_lock = seams.REAL_ALLOCATE()
        self.main_lock.acquire()
        self.log = []  # fired actions, in order
        self.verdict = None
        self.locs = {}
        self.trace = {}
        self.hot = {}  # profile: location index -> tier
        self._spots = {}
        self.on_nest = None
        self.on_obs = None
        self.obs_all = None  # tid -> stride: observe at every stride-th step
        self.faults = {}
        self.edges = []  # profile: [tid, step, lock held, lock wanted]

    # -- monitoring -----------------------------------------------------------
    def _install(self):
        MON.use_tool_id(TOOL, "sim")
        scope = self.scope
        gran = self.gran
        seen = {}
        K = self

        def local(code):
            ev = EV.LINE if gran == "line" else EV.INSTRUCTION
            MON.set_local_events(TOOL, code, ev)

        def step(code, x):
            t = K.cur
            if t is None:
                return
            t.n = n = t.n + 1
            if n == t.next_at:
                K.fire(t, code, x)

        def pstep(code, x):
            t = K.cur
            if t is None:
                return
            t.n = n = t.n + 1
            tr = K.trace.get(t.tid)
            if tr is not None and n <= K.profile:
                key = (code, x)
                i = K.locs.get(key)
                if i is None:
                    i = K.locs[key] = len(K.locs)
                    sp = K._spots.get(code)
                    if sp is None:
                        fr = sys._getframe(1)
                        while fr is not None and fr.f_code is not code:
                            fr = fr.f_back
                        sp = K._spots[code] = hot_spots(code, fr.f_globals if fr else {})
                    tier = 1 if x == -2 else sp.get(("L", x) if gran == "line" else x) if x != -1 else None
                    if tier:
                        K.hot[i] = tier
                tr.append(i)
            if n == t.next_at:
                K.fire(t, code, x)

        the_step = self._lockstep = pstep if self.profile else step

        def start(code, off):
            ok = seen.get(code)
            if ok is None:
                ok = seen[code] = in_scope(code, scope)
                if ok and gran != "start":
                    local(code)
            if not ok:
                return MON.DISABLE
            the_step(code, -1)

        MON.register_callback(TOOL, EV.PY_START, start)
        if gran == "line":
            MON.register_callback(TOOL, EV.LINE, the_step)
        elif gran == "instr":
            MON.register_callback(TOOL, EV.INSTRUCTION, the_step)
        MON.set_events(TOOL, EV.PY_START)

    def before_lock(self, lock):
        """acquiring a lock is a preemption point of its own"""
        t = self.cur
        f = sys._getframe(2)
        while f is not None and f.f_globals.get("__name__") in ("sim.seams", "threading"):
            f = f.f_back
        if f is None or t is None:
            return
        self._lockstep(f.f_code, -2)
        if self.profile:
            for o in t.held:
                if o is not lock and o.count:
                    self.edges.append([t.tid, t.n, o.site, lock.site])

    def _uninstall(self):
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)

    # -- plan -------------------------------------------------------------------
    def _arm(self, t):
        nxt = self.budget
        if t.ai < len(t.acts):
            nxt = min(nxt, t.acts[t.ai][0])
        if self.obs_all and t.tid in self.obs_all:
            nxt = min(nxt, t.n + self.obs_all[t.tid])
        t.next_at = max(nxt, t.n + 1)

    def fire(self, t, code, x):
        if t.n >= self.budget:
            self.verdict = ["noprogress", t.tid, "%s:%s" % (code.co_qualname, x)]
            self._abort_run()
        if self.obs_all and t.tid in self.obs_all:
            self.on_obs(t, None, "%s:%s" % (code.co_qualname, x))
        while t.ai < len(t.acts) and t.acts[t.ai][0] <= t.n:
            step, kind, arg = t.acts[t.ai]
            where = "%s:%s" % (code.co_qualname, x)
            if kind == "raise":
                if not fault_ok(sys._getframe(2)):
                    t.acts[t.ai] = [t.n + 1, kind, arg]
                    break
                t.ai += 1
                self._arm(t)
                self.log.append([t.tid, t.n, "raise " + arg, where])
                self.faults[arg] = self.faults.get(arg, 0) + 1
                raise EXC[arg]("injected")
            t.ai += 1
            if kind == "sw":
                o = self._get(arg)
                if o is not None and o is not t and o.state in ("new", "ready"):
                    self.log.append([t.tid, t.n, "switch %d" % arg, where])
                    self._arm(t)
                    self._switch(t, o)
            elif kind == "nest":
                self.log.append([t.tid, t.n, "nest %s" % arg, where])
                self._arm(t)
                self.on_nest(t, arg)
            elif kind == "obs":
                self.log.append([t.tid, t.n, "obs", where])
                self._arm(t)
                self.on_obs(t, arg, where)
            elif kind == "gc":
                self.log.append([t.tid, t.n, "gc", where])
                self._arm(t)
                gc.collect()
            elif kind == "kill":
                os._exit(77)
            elif kind == "yield":
                self.log.append([t.tid, t.n, "yield", where])
                self._arm(t)
                self.on_yield(t)
            elif kind == "clock":
                self.log.append([t.tid, t.n, "clock %s" % arg, where])
                seams.Clock.now += arg
        self._arm(t)

    # -- scheduling ---------------------------------------------------------------
    def _get(self, tid):
        return self.threads[tid] if 0 <= tid < len(self.threads) else None

    def _switch(self, me, other):
        self.cur = other
        if other.state == "new":
            other.state = "ready"
            seams.REAL_START(self._run, (other,))
        else:
            other.lock.release()
        me.lock.acquire()
        self.cur = me

    def _next(self, t):
        """Who runs when t cannot: the next runnable one in the run's order."""
        n = len(self.threads)
        for d in range(1, n + 1):
            o = self.threads[(t.tid + d) % n]
            if o is not t and o.state in ("new", "ready"):
                return o
            if o is not t and o.state == "blocked" and o.waiting is not None and not o.waiting.count:
                o.state = "ready"
                return o
        best = None
        for o in self.threads:
            if o.state == "blocked" and o.wake_at is not None:
                if best is None or o.wake_at < best.wake_at:
                    best = o
        if best is not None:
            seams.Clock.now = max(seams.Clock.now, best.wake_at)
            best.timed_out = best.waiting is not None and bool(best.waiting.count)
            best.state = "ready"
            return best
        return None

    def _hand_over(self, t):
        o = self._next(t)
        if o is t:
            return
        if o is None:
            self.verdict = ["deadlock", [x.tid for x in self.threads if x.state == "blocked"]]
            self._abort_run()
        self._switch(t, o)

    def block(self, lock, timeout):
        t = self.cur
        while lock.count:
            t.state = "blocked"
            t.waiting = lock
            t.timed_out = False
            t.wake_at = None if timeout is None else seams.Clock.now + timeout
            self.log.append([t.tid, t.n, "block", ""])
            self._hand_over(t)
            t.state = "ready"
            t.waiting = None
            t.wake_at = None
            if t.timed_out:
                return False
        return True

    def sleep(self, secs):
        t = self.cur
        t.state = "blocked"
        t.waiting = None
        t.wake_at = seams.Clock.now + secs
        self._hand_over(t)
        t.state = "ready"
        t.wake_at = None

    def spawn(self, fn, args, kwargs):
        t = T(len(self.threads), lambda: fn(*args, **kwargs))
        self.threads.append(t)
        self._arm(t)
        return 1000000 + t.tid

    def _abort_run(self):
        # the run is over; every other thread stays parked, the process is about to exit
        self.cur = None
        self.main_lock.release()
        seams.REAL_ALLOCATE_park = seams.REAL_ALLOCATE()
        l = seams.REAL_ALLOCATE()
        l.acquire()
        l.acquire()

    def _run(self, t):
        try:
            t.body()
        except BaseException as e:  # body() reports outcomes itself
            self.verdict = self.verdict or ["harness", repr(e)]
        for s in t.sentinels:
            if s.count:
                s.release()
        t.state = "done"
        o = self._next(t)
        if o is None or o is t:
            if all(x.state == "done" for x in self.threads):
                self.cur = None
                self.main_lock.release()
                return
            self.verdict = ["deadlock", [x.tid for x in self.threads if x.state == "blocked"]]
            self.cur = None
            self.main_lock.release()
            return
        self.cur = o
        if o.state == "new":
            o.state = "ready"
            seams.REAL_START(self._run, (o,))
        else:
            o.lock.release()

    def go(self, bodies, acts, first=0):
        """Run the bodies to completion under the plan `acts` ([tid, step, kind, arg])."""
        for i, b in enumerate(bodies):
            t = T(i, b)
            t.acts = sorted(([a[1], a[2], a[3]] for a in acts if a[0] == i), key=lambda a: a[0])
            self.threads.append(t)
            if self.profile:
                self.trace[i] = []
        for t in self.threads:
            self._arm(t)
        self._install()
        seams.KERNEL = self
        t = self.threads[first]
        t.state = "ready"
        self.cur = t
        seams.REAL_START(self._run, (t,))
        self.main_lock.acquire()
        seams.KERNEL = None
        self.cur = None
        self._uninstall()
        return self.verdict
