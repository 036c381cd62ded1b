"""Run one treeno command in this (forked) process on simulated standard streams."""
import base64
import builtins
import errno
import io
import os
import sys

from . import kernel, ops


class Device(io.RawIOBase):
    """The raw output device.  `script` holds the behaviour of successive writes."""

    def __init__(self, script, final, fired, fd=1):
        self.fd = fd
        self.script = list(script)
        self.final = final
        self.data = bytearray()
        self.calls = 0
        self.fired = fired

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def write(self, b):
        b = bytes(b)
        self.calls += 1
        act = self.script.pop(0) if self.script else self.final
        k = act[0]
        if k != "ok":
            self.fired[k] = self.fired.get(k, 0) + 1
        if k == "ok":
            self.data += b
            return len(b)
        if k == "short":
            n = max(1, int(len(b) * act[1])) if b else 0
            self.data += b[:n]
            return n
        if k == "EAGAIN":
            n = int(len(b) * act[1])
            if n <= 0:
                return None
            self.data += b[:n]
            return n
        if k == "EINTR":
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        if k == "INT":  # the signal handler runs right after a (partial) write
            n = int(len(b) * act[1])
            if n <= 0:
                raise KeyboardInterrupt()
            self.data += b[:n]  # a partial write succeeds; the handler runs before the next
            self.script.insert(0, ["INT", 0])
            return n
        raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)))


def stream(dev, enc, errors, bufsize, line):
    if bufsize == 0:  # python -u, PYTHONUNBUFFERED
        return io.TextIOWrapper(dev, encoding=enc, errors=errors, newline="\n", write_through=True)
    return io.TextIOWrapper(
        io.BufferedWriter(dev, bufsize), encoding=enc, errors=errors, line_buffering=line, newline="\n"
    )


def expected(argv):
    """What the library computes for this command line (raises when it rejects it)."""
    cmd = argv[0]
    if cmd == "schema":
        q = ops.look("X:query_from_sql")(argv[1])
        q.resolve(ops.look("R:Schema.empty_schema")())
        sch = q.resolve(ops.look("R:Schema.empty_schema")())
        if not sch.fields:
            return "Unknown schema\n"
        unk = ops.look("D:unknown")()
        return "".join(
            "%s - %s\n" % (f.name, "<unknown>" if f.data_type == unk else f.data_type) for f in sch.fields
        )
    kind, sql = argv[1], argv[2]
    if cmd == "antlr-tree":
        ast = ops.look("A:AST")(sql)
        n = {"query": ast.query, "expression": ast.expression, "type": ast.type}[kind]()
        return ops.look("A:tree")(ast, n) + "\n"
    v = ops.look("X:%s_from_sql" % kind)(sql)
    if kind == "query":
        v.resolve(ops.look("R:Schema.empty_schema")())
    if cmd == "format":
        return v.sql(ops.look("B:PrintOptions")(ops.look("B:PrintMode").PRETTY)) + "\n"
    t = ops.look("CLI:treeify")(v)
    s = io.StringIO()
    t.pretty_print(stream=s)
    return s.getvalue() + "\n"


def run_command(spec):
    fired = {}
    out = Device(spec["out"], spec.get("out_final", ["ok"]), fired)
    efired = {}
    err = Device(spec["err"], spec.get("err_final", ["ok"]), efired, 2)
    enc = spec.get("encoding", "utf-8")
    so = stream(out, enc, spec.get("errors", "strict"), spec.get("bufsize", 8192), spec.get("line", False))
    se = stream(err, enc, "backslashreplace", 8192, True)
    real_write = os.write

    def sim_write(fd, b):
        if fd in (1, 2):
            while True:
                try:
                    n = (out if fd == 1 else err).write(b)
                    break
                except InterruptedError:  # os.write itself tries again (PEP 475)
                    pass
            if n is None:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            return n
        return real_write(fd, b)

    def sim_writev(fd, bufs):
        return sim_write(fd, b"".join(bytes(b) for b in bufs))

    real_open = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **kw):
        if isinstance(file, int) and file in (1, 2) and not isinstance(file, bool):
            dev = Device([], ["ok"], fired, file)
            dev.write = lambda b: (out if file == 1 else err).write(b)
            if buffering == 0:
                return dev
            w = io.BufferedWriter(dev)
            return w if "b" in mode else io.TextIOWrapper(w, encoding=encoding or "utf-8", errors=errors, newline=newline or "\n")
        return real_open(file, mode, buffering, encoding, errors, newline, *a, **kw)

    io.open = builtins.open = sim_open
    os.fdopen = sim_open
    os.writev = sim_writev
    sys.stdout = sys.__stdout__ = so
    sys.stderr = sys.__stderr__ = se
    os.write = sim_write
    sys.argv = ["treeno"] + spec["argv"]
    app = ops.look("CLI:app")
    state = {"status": None, "how": ""}

    def body():
        try:
            try:
                r = app()
                sys.exit(r)  # the console script does sys.exit(app())
            except SystemExit as e:
                c = e.code
                if c is None:
                    state["status"] = 0
                elif isinstance(c, int):
                    state["status"] = c & 0xFF
                else:
                    state["status"] = 1
                    print(c, file=sys.stderr)
                state["how"] = "exit"
            except KeyboardInterrupt:
                state["status"] = 130
                state["how"] = "KeyboardInterrupt"
            except BaseException as e:
                state["status"] = 1
                state["how"] = type(e).__name__
                import traceback

                traceback.print_exc()
        except BaseException as e:  # failure while reporting the failure
            if state["status"] in (None, 0):
                state["status"] = 1
            state["how"] += "+" + type(e).__name__

    K = kernel.Kernel(gran=spec.get("gran", "line"), scope="cli", budget=3_000_000, profile=spec.get("profile", 0))
    verdict = K.go([body], spec.get("acts", []))
    # interpreter shutdown: flush_std_files()
    status = state["status"]
    if sys.stdout is not None and not getattr(sys.stdout, "closed", False):
        try:
            sys.stdout.flush()
        except BaseException:
            status = 120 if status == 0 else status
    if sys.stdout is not so and not so.closed:
        try:  # a replaced stream object does not flush the real one; its finaliser does
            so.flush()
        except BaseException:
            pass
    if sys.stderr is not None and not getattr(sys.stderr, "closed", False):
        try:
            sys.stderr.flush()
        except BaseException:
            pass
    for k, n in efired.items():
        fired["stderr-" + k] = n
    for k, n in K.faults.items():
        fired[k] = n
    res = {
        "data": base64.b64encode(bytes(out.data)).decode(), "status": status, "how": state["how"],
        "fired": fired, "steps": K.threads[0].n, "log": K.log, "writes": out.calls,
    }
    if verdict:
        res["verdict"] = verdict
    if K.profile:
        names = [None] * len(K.locs)
        for (code, x), i in K.locs.items():
            names[i] = "%s:%s" % (code.co_qualname, x)
        res["profile"] = {"locs": names, "trace": K.trace[0]}
    return res


def execute(spec):
    if spec.get("expect"):
        try:
            return {"expect": expected(spec["argv"])}
        except Exception as e:
            return {"reject": type(e).__name__}
    return run_command(spec)
