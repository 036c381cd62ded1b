"""C07: the command line on faulty streams."""
import base64
import json
import os
import subprocess

from . import corpus, procs
from .common import Prog

RULE = (
    "a case is one treeno command line run in-process on a simulated standard output/error device "
    "with a scripted behaviour per write (short, EINTR, EAGAIN, EPIPE, ENOSPC, EIO, EFBIG, interrupt), "
    "seeded encodings, buffer sizes and exceptions at chosen instants; a few cases run the real "
    "process on a file, /dev/full, a closed pipe or a file-size limit; non-trivial = a fault fired; "
    "distinct = different (command line, faults fired, write script)"
)
BATCH = 40
REAL = "treeno.cli, typer, click, io.TextIOWrapper/BufferedWriter: real code"
STUB = "raw output devices, interpreter shutdown flush, delivery of interrupts: simulated"
ASSUME = ["standard output is open when the command starts", "standard output is not a terminal"]
ERR = ["EPIPE", "ENOSPC", "EIO", "EFBIG"]
SPECIAL = [
    "SELECT 'é' AS x", "SELECT '漢字' AS x FROM t", "SELECT x AS \"ünï\" FROM t", "SELECT 1 AS a, 'naïve' AS b",
    "SELECT '🙂', x FROM t",
]


def beh(rng):
    u = rng.random()
    if u < 0.3:
        return ["ok"]
    if u < 0.5:
        return ["short", rng.choice([0.0, 0.1, 0.5, 0.9])]
    if u < 0.62:
        return ["EINTR"]
    if u < 0.72:
        return ["EAGAIN", rng.choice([0.0, 0.0, 0.5])]
    if u < 0.8:
        return ["INT", rng.choice([0.0, 0.3, 1.0])]
    return [rng.choice(ERR)]


def wide(i, rng):
    return "%s AS c%d" % (["%d" % i, "'v%d'" % i, "%d.5" % i, "CAST(%d AS VARCHAR(9))" % i, "ARRAY[%d]" % i][(i * i) % 5], i)


def gen(rng, R):
    cmd = rng.choice(["format", "format", "tree", "antlr-tree", "schema"])
    u = rng.random()
    if cmd == "schema":
        kind = "query"
    else:
        kind = rng.choice(["query", "query", "expression", "type"])
    if u < 0.25:
        k, sql = rng.choice([x for x in corpus.INVALID if x[0] == kind])
    elif u < 0.4 and kind == "query":
        sql = rng.choice(SPECIAL)
    elif u < 0.7:
        sql = rng.choice({"query": corpus.QUERIES + corpus.RESOLVABLE, "expression": corpus.EXPRS, "type": corpus.TYPES}[kind])
    else:
        g = corpus.Gen(rng)
        sql = g.query(2) if kind == "query" else g.expr(3) if kind == "expression" else g.typ()
    if rng.random() < (0.45 if cmd == "schema" else 0.15) and kind == "query":
        sql = rng.choice(["SELECT %s", "SELECT %s", "SELECT %s FROM some_table", "SELECT x FROM (SELECT %s) q", "SELECT q.* FROM (SELECT %s) q"]) % ", ".join(wide(i, rng) for i in range(rng.choice([5, 10, 31, 33, 40, 65, 120, 300])))
    argv = [cmd, sql] if cmd == "schema" else [cmd, kind, sql]
    if rng.random() < 0.03:
        argv[1 if cmd != "schema" else 0] = "nosuch"
    if rng.random() < 0.015:
        return {"real": rng.choice(["file", "full", "pipe", "fsize"]), "argv": argv, "limit": rng.choice([0, 1, 10, 100]),
                "unbuf": rng.random() < 0.5}
    case = {
        "argv": argv,
        "encoding": rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "ascii", "cp1252"]),
        "bufsize": rng.choice([8192, 8192, 0, 0, 1, 16, 64, 512]),
        "line": rng.random() < 0.15,
        "gran": "line",
        "acts": [],
    }
    n = rng.choice([0, 1, 1, 2, 4, 8])
    case["out"] = [["ok"]] * rng.choice([0, 0, 1, 3]) + [beh(rng) for _ in range(n)]
    case["out_final"] = ["ok"] if rng.random() < 0.75 else [rng.choice(ERR)]
    case["err"] = [beh(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    case["err_final"] = ["ok"] if rng.random() < 0.85 else [rng.choice(ERR)]
    if rng.random() < 0.35:
        p = prof(R, case)
        if p:
            by = {}
            for i, l in enumerate(p["trace"]):
                by.setdefault(l, []).append(i + 1)
            l = rng.choice(list(by))
            s = rng.choice(by[l]) if rng.random() < 0.6 else rng.randint(1, p["steps"])
            case["acts"] = [[0, s, "raise", rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"])]]
    return case


def prof(R, case):
    key = "CLIP" + json.dumps(case["argv"])
    if key not in R.memo:
        x = R.run(dict(case, kind="cli", out=[], err=[], out_final=["ok"], err_final=["ok"], acts=[], profile=6000), "fresh")
        R.memo[key] = None if x.get("hang") or x.get("crash") or x.get("verdict") else {
            "trace": x["profile"]["trace"], "steps": x["steps"]}
    return R.memo[key]


def expect(R, argv):
    key = "CLIX" + json.dumps(argv)
    if key not in R.memo:
        if (argv[0] not in ("format", "tree", "antlr-tree", "schema")) or (argv[0] != "schema" and argv[1] not in ("query", "expression", "type")):
            R.memo[key] = {"reject": "usage"}
        else:
            R.memo[key] = R.run({"kind": "cli", "expect": True, "argv": argv}, "fresh")
    return R.memo[key]


def allowed(text, enc):
    """byte strings of which what was delivered must be a prefix"""
    out = [text.encode("utf-8")]
    try:
        out.append(text.encode(enc))
    except UnicodeEncodeError as e:
        out.append(text[: e.start].encode(enc))
    return out


LAUNCH = (
    "import sys, os; sys.path.insert(0, %r); import attr, antlr4, nltk.tree, typer; "
    "sys.pycache_prefix = os.path.join(os.environ['SIM_SCRATCH'], 'pyc'); "
    "from treeno.cli import app; sys.exit(app())"
)


def real(case, R, st):
    import resource

    env = procs.base_env(R.scratch)
    if case.get("unbuf"):
        env["PYTHONUNBUFFERED"] = "1"
    cmd = [procs.PY, "-c", LAUNCH % env["SIM_REPO"]] + case["argv"]
    path = os.path.join(R.scratch, "real_%s.out" % R.wid)
    pre = None
    if case["real"] == "full":
        f = os.open("/dev/full", os.O_WRONLY)
    elif case["real"] == "pipe":
        r, f = os.pipe()
        os.close(r)
    else:
        f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        if case["real"] == "fsize":
            lim = case["limit"]
            pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    err = subprocess.PIPE
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=err, env=env, cwd=R.scratch, preexec_fn=pre, timeout=120)
    finally:
        os.close(f)
    st.add("fault:real-" + case["real"])
    data = b""
    if case["real"] in ("file", "fsize"):
        with open(path, "rb") as g:
            data = g.read()
        os.unlink(path)
    return {"data": base64.b64encode(data).decode(), "status": p.returncode, "how": "real", "fired": {case["real"]: 1}, "steps": 0, "log": [], "encoding": "utf-8"}


def judge(case, R, st):
    ex = expect(R, case["argv"])
    if ex.get("hang") or ex.get("crash"):
        return None
    if "real" in case:
        x = real(case, R, st)
        enc = "utf-8"
    else:
        x = R.run(dict(case, kind="cli"), "fresh")
        enc = case["encoding"]
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "command never ends"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    if x.get("verdict"):
        return {"class": x["verdict"][0], "text": str(x["verdict"])}
    st.add("steps", x["steps"])
    st.add("status0" if x["status"] == 0 else "status-nonzero")
    for k, n in x["fired"].items():
        if "real" not in case:
            st.add("fault:" + k, n)
    if x["fired"]:
        st.seen(case["argv"], x["fired"], case.get("out"), x["log"])
    data = base64.b64decode(x["data"])
    info = "status %s (%s), %d bytes delivered, faults %s, argv %s" % (x["status"], x["how"], len(data), x["fired"], case["argv"])
    if "reject" in ex:
        if data:
            return {"class": "rejected-output", "text": "rejected input produced output %r; %s" % (data[:80], info), "log": x["log"]}
        if x["status"] == 0:
            return {"class": "rejected-status", "text": "rejected input (%s) exits 0; %s" % (ex["reject"], info), "log": x["log"]}
        return None
    al = allowed(ex["expect"], enc)
    if not any(a.startswith(data) for a in al):
        return {"class": "not-prefix", "text": "delivered bytes are not a prefix of the output: %r...; %s" % (data[-80:], info), "log": x["log"]}
    if x["status"] == 0:
        full = [ex["expect"].encode("utf-8")]
        try:
            full.append(ex["expect"].encode(enc))
        except UnicodeEncodeError:
            pass
        if data not in full:
            return {"class": "incomplete", "text": "exit status 0 but output incomplete; %s" % info, "log": x["log"]}
    return None


def paths(case):
    yield ("acts",)
    yield ("out",)
    yield ("err",)
