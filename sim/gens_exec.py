"""Run a generator script in this (forked) process over a scratch directory whose I/O
operations, network and prompts are simulated."""
import builtins
import errno
import hashlib
import io
import json
import os
import runpy
import sys

from . import kernel

SCRIPTS = {"visitor": "bin/codegen/create_visitor.py", "grammar": "bin/dev/update_grammar.py"}
REAL_OPEN = io.open
REAL = {n: getattr(os, n) for n in (
    "open", "write", "replace", "rename", "remove", "unlink", "fsync", "truncate", "ftruncate",
    "link", "symlink", "mkdir", "rmdir", "close", "fdopen", "stat", "chmod", "utime", "sendfile",
    "copy_file_range", "pwrite", "writev") if hasattr(os, n)}


class World:
    """Counts I/O operations on the scratch directory; `plan` maps index -> action."""

    def __init__(self, root, plan, fired):
        self.root = root
        self.plan = {int(k): v for k, v in plan.items()}
        self.n = 0
        self.fired = fired
        self.log = []
        self.target = None
        self.seen = []  # [operation, digest]: what the target held when it changed
        self.relay = None

    def observe(self):
        """what another process finds at the target at this instant"""
        if self.target is None:
            return
        try:
            with REAL_OPEN(self.target, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except FileNotFoundError:
            h = None
        except OSError as e:
            h = "<%s>" % type(e).__name__
        if len(self.seen) < 60 and (not self.seen or self.seen[-1][1] != h):
            self.seen.append([self.n, h])

    def yield_(self):
        """let the other generator process run (until it yields or ends)"""
        if self.relay is not None:
            self.fired["preempt"] = self.fired.get("preempt", 0) + 1
            self.relay()
        self.observe()

    def mine(self, p):
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return False
        return os.path.abspath(p).startswith(self.root)

    def op(self, what, size=None):
        """one I/O operation; returns None (do it) or a byte count (do part of it)"""
        self.n += 1
        self.observe()
        act = self.plan.get(self.n)
        if len(self.log) < 60:
            self.log.append(what)
        if act is None:
            return None
        k = act[0]
        if k == "yield":
            self.yield_()
            return None
        if k == "short" and size is None:
            return None
        self.fired[k] = self.fired.get(k, 0) + 1
        if k == "kill":
            os._exit(77)
        if k == "KeyboardInterrupt":
            raise KeyboardInterrupt()
        if k == "killafter":  # the operation happens, then the process dies
            return "killafter" if size is None else ("killafter", max(0, int(size * act[1])))
        if k == "short":
            return max(1, int(size * act[1])) if size else None
        raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)))


class FaultRaw(io.RawIOBase):
    def __init__(self, world, raw):
        self.w, self.raw = world, raw
        self.name = raw.name
        self.mode = raw.mode

    def writable(self):
        return self.raw.writable()

    def readable(self):
        return self.raw.readable()

    def seekable(self):
        return self.raw.seekable()

    def fileno(self):
        return self.raw.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def readinto(self, b):
        return self.raw.readinto(b)

    def truncate(self, *a):
        self.w.op("truncate")
        return self.raw.truncate(*a)

    def write(self, b):
        b = bytes(b)
        r = self.w.op("write %d" % len(b), len(b))
        if r is None:
            return self.raw.write(b)
        if isinstance(r, tuple):
            self.raw.write(b[: r[1]])
            os._exit(77)
        return self.raw.write(b[:r])

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.raw.close()


def install(world):
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        writing = any(c in mode for c in "wax+")
        if isinstance(file, int):
            mine = writing and world_fds.get(file)
        else:
            mine = writing and world.mine(file)
        if not mine:
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(file, int):
            if world.op("open %s" % mode) == "killafter":
                REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
                os._exit(77)
        raw_mode = mode.replace("b", "").replace("t", "")
        raw = FaultRaw(world, io.FileIO(file, raw_mode, closefd, opener))
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)

    world_fds = {}

    def wrap(name, pathargs):
        real = REAL.get(name)
        if real is None:
            return

        def f(*a, **k):
            if any(world.mine(x) for x in a[:pathargs]):
                if world.op(name) == "killafter":
                    real(*a, **k)
                    os._exit(77)
            return real(*a, **k)

        setattr(os, name, f)

    for n, c in (("replace", 2), ("rename", 2), ("remove", 1), ("unlink", 1), ("truncate", 1), ("link", 2),
                 ("symlink", 2), ("chmod", 1)):
        wrap(n, c)

    def os_open(path, flags, *a, **k):
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        m = wr and world.mine(path)
        if m and world.op("os.open") == "killafter":
            REAL["open"](path, flags, *a, **k)
            os._exit(77)
        fd = REAL["open"](path, flags, *a, **k)
        if m:
            world_fds[fd] = True
        return fd

    def os_write(fd, b):
        if world_fds.get(fd):
            r = world.op("os.write", len(b))
            if isinstance(r, tuple):
                REAL["write"](fd, bytes(b)[: r[1]])
                os._exit(77)
            if r is not None:
                b = bytes(b)[:r]
        return REAL["write"](fd, b)

    def os_close(fd):
        world_fds.pop(fd, None)
        return REAL["close"](fd)

    os.open, os.write, os.close = os_open, os_write, os_close

    def fd_op(name):
        real = REAL.get(name)
        if real is None:
            return

        def f(fd, *a, **k):
            world.op(name)
            return real(fd, *a, **k)

        setattr(os, name, f)

    fd_op("fsync")
    fd_op("ftruncate")
    # fast-copy paths would bypass the disk seam
    import shutil

    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_HAS_FCOPYFILE"):
        shutil._HAS_FCOPYFILE = False
    builtins.open = io.open = sim_open


# ---- network ---------------------------------------------------------------------
class SockRaw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.s.recv(len(b))
        b[: len(d)] = d
        return len(d)


class FakeSock:
    """A connected TLS socket serving a scripted response: segments of bytes and faults."""

    def __init__(self, segments, fired):
        self.segs = list(segments)
        self.fired = fired
        self.sent = b""

    def recv(self, n, *a):
        while self.segs:
            s = self.segs[0]
            if isinstance(s, str):
                b = s.encode("latin-1")
                if not b:
                    self.segs.pop(0)
                    continue
                out, rest = b[:n], b[n:]
                if rest:
                    self.segs[0] = rest.decode("latin-1")
                else:
                    self.segs.pop(0)
                return out
            self.segs.pop(0)
            k = s[0]
            self.fired["net-" + k] = self.fired.get("net-" + k, 0) + 1
            if k == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if k == "timeout":
                raise TimeoutError("timed out")
            if k == "interrupt":
                raise KeyboardInterrupt()
            if k == "kill":
                os._exit(77)
            if k == "eof":
                self.segs = []
                return b""
        return b""

    def recv_into(self, b, *a):
        d = self.recv(len(b))
        b[: len(d)] = d
        return len(d)

    def makefile(self, *a, **k):
        return io.BufferedReader(SockRaw(self))

    def sendall(self, b, *a):
        self.sent += bytes(b)

    send = sendall

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setsockopt(self, *a):
        pass

    def getpeercert(self, *a, **k):
        return {}

    def version(self):
        return "TLSv1.3"

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        pass


def install_net(net, fired):
    import socket

    import http.client

    responses = list(net)

    def conn(self, *a, **k):
        r = responses.pop(0) if responses else ["refused"]
        if r and r[0] in ("refused", "dns", "unreachable", "timeout-connect", "tls", "interrupt"):
            fired["net-" + r[0]] = fired.get("net-" + r[0], 0) + 1
            if r[0] == "dns":
                raise socket.gaierror(-2, "Name or service not known")
            if r[0] == "timeout-connect":
                raise TimeoutError("timed out")
            if r[0] == "interrupt":
                raise KeyboardInterrupt()
            if r[0] == "tls":
                import ssl

                raise ssl.SSLError(1, "certificate verify failed")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        self.sock = FakeSock(r, fired)
        self.is_verified = True

    http.client.HTTPSConnection.connect = conn
    http.client.HTTPConnection.connect = conn
    try:
        import urllib3.connection

        urllib3.connection.HTTPSConnection.connect = conn
        urllib3.connection.HTTPConnection.connect = conn
    except ImportError:
        pass

    def no_net(*a, **k):
        raise OSError(errno.ENETUNREACH, "Network is unreachable")

    socket.create_connection = no_net
    socket.getaddrinfo = no_net


class Answers(io.TextIOBase):
    def __init__(self, items, fired):
        self.items = list(items)
        self.fired = fired

    encoding = "utf-8"
    errors = "strict"

    def readable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readline(self, *a):
        a = self.items.pop(0) if self.items else "EOF"
        if a == "EOF":
            self.fired["prompt-eof"] = self.fired.get("prompt-eof", 0) + 1
            return ""
        if a == "INT":
            self.fired["prompt-interrupt"] = self.fired.get("prompt-interrupt", 0) + 1
            raise KeyboardInterrupt()
        if a != "y":
            self.fired["prompt-" + (a or "empty")] = self.fired.get("prompt-" + (a or "empty"), 0) + 1
        return a + "\n"

    read = readline


class Out(io.TextIOBase):
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, fail_at, fired):
        self.n = 0
        self.fail_at = fail_at
        self.fired = fired

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, s):
        self.n += 1
        if self.fail_at and self.n >= self.fail_at:
            self.fired["stdout-EPIPE"] = self.fired.get("stdout-EPIPE", 0) + 1
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return len(s)

    def flush(self):
        pass


def preload():
    """third-party modules of the scripts, imported before anything is simulated"""
    import click  # noqa: F401
    import difflib  # noqa: F401
    import http.client  # noqa: F401
    import shutil  # noqa: F401
    import tempfile  # noqa: F401
    import pathlib  # noqa: F401
    import hashlib  # noqa: F401
    import encodings.idna  # noqa: F401
    try:
        import requests  # noqa: F401
        import urllib3.connection  # noqa: F401
    except ImportError:
        pass


def execute(spec):
    if "pair" in spec:
        return pair(spec)
    return one(spec, 0, None)


def pair(spec):
    """two invocations at the same time: two processes, exactly one of which runs"""
    baton = [os.pipe(), os.pipe()]
    res = [os.pipe(), os.pipe()]
    pids = []
    for i in (0, 1):
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                mine, other = baton[i][0], baton[1 - i][1]
                for fd in (baton[i][1], baton[1 - i][0], res[0][0], res[1][0], res[1 - i][1]):
                    os.close(fd)
                if i != spec.get("first", 0):
                    os.read(mine, 1)

                def relay():
                    try:
                        REAL["write"](other, b"x")
                    except BrokenPipeError:
                        return
                    os.read(mine, 1)

                out = json.dumps(one(spec["pair"][i], i, relay)).encode()
                while out:
                    out = out[REAL["write"](res[i][1], out):]
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    for a, b in baton:
        os.close(a)
        os.close(b)
    outs = []
    for r, w in res:
        os.close(w)
    for i in (0, 1):
        b = b""
        while True:
            d = os.read(res[i][0], 65536)
            if not d:
                break
            b += d
        _, st = os.waitpid(pids[i], 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            outs.append({"killed": True})
        elif st == 0:
            outs.append(json.loads(b))
        else:
            raise RuntimeError("generator process: status %d" % st)
    return {"pair": outs}


def one(spec, nth, relay):
    preload()
    fired = {}
    root = spec["root"]
    os.getpid = lambda: 4242 + nth
    script = os.path.join(os.environ.get("SIM_REPO", "/repo"), SCRIPTS[spec["tool"]])
    kernel.regions(script)
    os.chdir(root)
    world = World(root, spec.get("io", {}), fired)
    world.target = spec.get("target")
    world.relay = relay
    if spec["tool"] == "grammar":
        install_net(spec["net"], fired)
    install(world)
    sys.stdin = Answers(spec.get("answers", []), fired)
    sys.stdout = sys.__stdout__ = Out(spec.get("stdout_fail", 0), fired)
    sys.stderr = sys.__stderr__ = Out(0, fired)
    os.environ["http_proxy"] = os.environ["https_proxy"] = ""
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
    sys.argv = [script] + spec["argv"]
    import logging

    logging.disable(logging.CRITICAL)
    state = {"status": None, "how": ""}

    def body():
        try:
            runpy.run_path(script, run_name="__main__")
            state["status"] = 0
        except SystemExit as e:
            c = e.code
            state["status"] = 0 if c is None else (c if isinstance(c, int) else 1)
            state["how"] = "exit"
        except BaseException as e:
            state["status"] = 1
            state["how"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            e.__traceback__ = None

    K = kernel.Kernel(gran="line", scope="script", budget=5_000_000)
    K.on_yield = lambda t: world.yield_()
    verdict = K.go([body], spec.get("acts", []))
    import gc

    gc.collect()  # interpreter exit closes forgotten files
    for k, n in K.faults.items():
        fired[k] = fired.get(k, 0) + n
    world.observe()
    status = state["status"]
    builtins.open = io.open = REAL_OPEN
    return {"status": status, "how": state["how"], "fired": fired, "iolog": world.log, "nio": world.n, "seen": world.seen,
            "steps": K.threads[0].n, "log": K.log, "verdict": verdict}
