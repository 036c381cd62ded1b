"""Fork server.  argv: mode scratch-id.  Protocol: one byte on stdin per run; the child
reads the specification from <base>.spec and writes <base>.out; the server reports
"<pid>\n" when the child starts and "<status>\n" when it has gone."""
import gc
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


REAL_OS_OPEN, REAL_OS_WRITE = os.open, os.write


def main():
    mode, base = sys.argv[1], sys.argv[2]
    ctl_in, ctl_out = os.dup(0), os.dup(1)
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    gc.disable()
    from sim import boot

    boot.boot(import_treeno=mode != "bare")
    from sim import desc, execspec, kernel, ops  # noqa: F401

    handlers = {"exec": execspec.execute}
    for name in ("cli", "gens", "soak", "env"):
        try:
            m = __import__("sim.%s_exec" % name, fromlist=["execute"])
        except ModuleNotFoundError as e:
            if "_exec" not in str(e):
                raise
            continue
        handlers[name] = m.execute
        if hasattr(m, "preload"):
            m.preload()
    if mode in ("fresh", "warm"):
        boot.antlr_warm()
    if mode == "warm":
        c = ops.Client()
        for o in boot.WARM_PRELUDE:
            c.run(o)
        c = None
    for d, _, fs in os.walk(kernel.ROOT):
        for f in fs:
            f = os.path.join(d, f)
            if f.endswith(".py") and not f.startswith(kernel.GEN):
                kernel.regions(f)
    gc.collect()
    gc.freeze()
    os.dup2(null, 2)
    os.write(ctl_out, b"ready\n")
    while True:
        b = os.read(ctl_in, 1)
        if not b:
            return
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                with open(base + ".spec") as f:
                    spec = json.load(f)
                try:
                    out = handlers[spec.get("kind", "exec")](spec)
                except BaseException as e:
                    import traceback

                    out = {"harness_error": traceback.format_exc()[-3000:]}
                fd = REAL_OS_OPEN(base + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                b = json.dumps(out).encode()
                while b:
                    b = b[REAL_OS_WRITE(fd, b):]
                code = 0
            finally:
                os._exit(code)
        os.write(ctl_out, b"%d\n" % pid)
        _, st = os.waitpid(pid, 0)
        os.write(ctl_out, b"%d\n" % st)


main()
