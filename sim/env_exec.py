"""One fresh interpreter under a seeded environment.  argv: spec.json out.json.
Imports nothing of the simulator's seams: the environment itself is the seam."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    specf, outf = sys.argv[1], sys.argv[2]
    with open(specf) as f:
        spec = json.load(f)
    amb = spec["ambient"]
    base = {"PATH", "HOME", "LANG", "LC_ALL", "PYTHONHASHSEED", "SIM_REPO", "SIM_SCRATCH", "LD_PRELOAD", "TZ",
            "COLUMNS", "LINES", "TERM", "NO_COLOR"}
    asked = []
    if amb.get("environ_values"):
        vals = amb["environ_values"]
        import _collections_abc

        real = os.environ

        class Env(type(real)):
            """answers every unknown variable that treeno or its scripts ask for"""

            def __getitem__(self, k):
                try:
                    return real[k]
                except KeyError:
                    f = sys._getframe(1)
                    for _ in range(4):
                        if f is None:
                            break
                        fn = f.f_code.co_filename
                        if fn.startswith(REPO + "/treeno/") or fn.startswith(REPO + "/bin/"):
                            asked.append(str(k))
                            # or what the one who asks may compare it with
                            c = vals + [str(x) for x in f.f_code.co_consts if type(x) is int or type(x) is str and len(x) < 30 and x != k]
                            return c[(amb.get("environ_pick", 0) + len(str(k))) % len(c)]
                        f = f.f_back
                    raise

            def __contains__(self, k):
                try:
                    self[k]
                    return True
                except KeyError:
                    return False

        REPO = os.environ.get("SIM_REPO", "/repo")
        e = Env.__new__(Env)
        e.__dict__.update(real.__dict__)
        os.environ = e
    jitter = [object() for _ in range(amb.get("jitter", 0))]
    keep = jitter[::3]
    del jitter
    import decimal
    import gc
    import locale
    import random

    from sim import boot

    if amb.get("locale") is not None:
        try:
            locale.setlocale(locale.LC_ALL, amb["locale"])
        except locale.Error:
            pass
    if amb.get("cwd"):
        os.makedirs(amb["cwd"], exist_ok=True)
        os.chdir(amb["cwd"])
    if amb.get("early"):
        ambient(amb, decimal, gc, random)
    boot.third_party()
    boot.paths()
    boot.treeno_modules()
    ambient(amb, decimal, gc, random)
    from sim import desc, ops

    out = programs(spec, desc, ops)
    with open(outf, "w") as f:
        json.dump({"out": out, "asked": sorted(set(asked)), "n": len(keep)}, f)


def programs(spec, desc, ops):
    out = []
    for prog in spec["progs"]:
        if prog[0] == "cli":
            out.append(cli(prog[1], desc))
            continue
        if prog[0] == "visitor":
            out.append(visitor(spec, desc))
            continue
        c = ops.Client()
        o = [c.run(x) for x in prog]
        out.append([x[:2] if x[0] == "err" else ["ok", short(desc, x[1])] for x in o])
    return out


def execute(spec):
    """the reference environment: a fork of a prepared process"""
    from sim import desc, ops

    return {"out": programs(spec, desc, ops)}


def short(desc, v):
    c = desc.canon(v)
    return v if len(c) < 60 else "#" + desc.digest(v)


def ambient(amb, decimal, gc, random):
    d = amb.get("decimal")
    if d:
        c = decimal.getcontext()
        c.prec = d["prec"]
        c.rounding = d["rounding"]
        c.capitals = d["capitals"]
    g = amb.get("gc")
    if g == "off":
        gc.disable()
    elif g == "one":
        gc.set_threshold(1)
    elif g == "freeze":
        gc.freeze()
    if amb.get("random") is not None:
        random.seed(amb["random"])


def refused(e):
    """click's documented refusal to run in an ASCII locale"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_name == "_verify_python_env"


def cli(argv, desc):
    import io

    from sim import ops

    so, se = sys.stdout, sys.stderr
    raw = io.BytesIO()
    sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", newline="\n")
    sys.stderr = io.StringIO()
    sys.argv = ["treeno"] + argv
    st = None
    try:
        ops.look("CLI:app")()
        st = 0
    except SystemExit as e:
        st = e.code
    except BaseException as e:
        st = type(e).__name__
        if refused(e):
            sys.stdout, sys.stderr = so, se
            return [["refused"]]
    try:
        sys.stdout.flush()
        b = raw.getvalue()
    finally:
        sys.stdout, sys.stderr = so, se
    return [["ok", [str(st), short(desc, b.decode("utf-8", "replace"))]]]


def visitor(spec, desc):
    import io
    import logging
    import runpy

    path = os.path.join(spec["dir"], "visitor_out.py")
    if os.path.exists(path):
        os.unlink(path)
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.argv = ["create_visitor.py", "--file-name", path]
    logging.disable(logging.CRITICAL)
    try:
        runpy.run_path(os.path.join(os.environ["SIM_REPO"], "bin/codegen/create_visitor.py"), run_name="__main__")
    except SystemExit:
        pass
    except BaseException as e:
        return [["refused"]] if refused(e) else [["err", type(e).__name__]]
    finally:
        sys.stdout, sys.stderr = so, se
    try:
        with open(path, "rb") as f:
            return [["ok", short(desc, f.read().decode("utf-8", "replace"))]]
    except OSError:
        return [["err", "no file"]]


if __name__ == "__main__":
    main()
