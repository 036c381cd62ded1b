"""C09: same result in every process environment."""
import json
import os
import subprocess

from . import corpus, procs
from .common import Prog

RULE = (
    "a case runs 60-120 seeded client programs (parse/print/build/resolve/compare/draw, command lines, "
    "visitor generation) in a fresh interpreter under a seeded environment vector and in one under the "
    "reference environment; every outcome must be the same; non-trivial = every case (the vector always "
    "differs from the reference); distinct = different (environment vector, programs)"
)
BATCH = 1
REAL = "the whole interpreter process: real treeno code in fresh processes"
STUB = "clock offset, process id, host name (LD_PRELOAD shim), unknown environment variables asked for by treeno: simulated"
ASSUME = ["error outcomes are compared by type only", "decimal traps and exponent limits are left alone", "click itself refuses to run when the locale's encoding is ASCII; such runs are not compared"]
ROUND = ["ROUND_CEILING", "ROUND_DOWN", "ROUND_FLOOR", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN", "ROUND_HALF_UP", "ROUND_UP", "ROUND_05UP"]
NUMS = ["1.0", "-1.50", "0.10", "123456789012345678901234567890.1234", "-0.1234567890123456789012345678901234",
        "-99999999999999999999999999999999.5", "0.0000001", "-0.00000000001", "12345678.9", "99.999999", "-3.14159265358979323846",
        "1234567890123456789", "-2147483649", "1E10", "2.5E-3", "-1E5", "1.10000000000000000000000000000", "000.10"]


def vector(rng):
    amb = {
        "decimal": {"prec": rng.choice([1, 2, 3, 5, 9, 28, 60, 200]), "rounding": rng.choice(ROUND), "capitals": rng.choice([0, 1])},
        "gc": rng.choice(["on", "off", "one", "freeze"]),
        "random": rng.randrange(10**6),
        "locale": rng.choice([None, "", "C", "C.UTF-8", "POSIX"]),
        "cwd": rng.choice([None, "w1", "w2/deep/er", "w with space"]),
        "jitter": rng.choice([0, 10, 1000, 54321]),
        "early": rng.random() < 0.5,
        "environ_pick": rng.randrange(12),
        "environ_values": rng.choice([None, ["1"], ["0", "1", "true"], ["", "x"], ["C", "utf-8", "80"]]),
    }
    env = {
        "PYTHONHASHSEED": str(rng.choice([0, 1, 2, rng.randrange(4294967295), rng.randrange(4294967295)])),
        "LANG": rng.choice(["C", "C.UTF-8", "POSIX", "en_US.UTF-8", "tr_TR.UTF-8"]),
        "TZ": rng.choice(["UTC", "Asia/Tokyo", "America/New_York", "XXX-13:45"]),
        "COLUMNS": rng.choice(["1", "20", "80", "200", "10000"]),
        "LINES": rng.choice(["1", "24", "500"]),
        "TERM": rng.choice(["dumb", "xterm-256color", "linux"]),
        "HOME": rng.choice(["/nonexistent", "/", "@"]),
        "SIM_CLOCK_OFFSET": str(rng.choice([0, -1600000000, 86400 * 365 * 30, 3600, 86400 * 3, rng.randrange(10**9)])),
        "SIM_PID": str(rng.choice([1, 2, 4242, rng.randrange(1, 32768)])),
        "SIM_HOST": rng.choice(["a", "box-%d" % rng.randrange(99)]),
        "USER": rng.choice(["root", "nobody", "x y"]),
    }
    for k, vs in {"LC_ALL": ["C", "C.UTF-8", "POSIX"], "LC_NUMERIC": ["C", "C.UTF-8"], "NO_COLOR": ["1"], "FORCE_COLOR": ["1"],
                  "PYTHONUTF8": ["0", "1"], "PYTHONIOENCODING": ["ascii", "latin-1", "utf-8:replace"], "CI": ["true"],
                  "DEBUG": ["1"], "PYTHONDEVMODE": ["1"], "TREENO_DEBUG": ["1"], "PAGER": ["cat"],
                  "PYTHONMALLOC": ["malloc", "debug"]}.items():
        if rng.random() < 0.3:
            env[k] = rng.choice(vs)
    return {"ambient": amb, "env": env, "aslr": rng.random() < 0.7}


def programs(rng, n):
    out = []
    for _ in range(n):
        u = rng.random()
        if u < 0.1:
            k = rng.choice(["query", "expression", "type"])
            sql = rng.choice({"query": corpus.QUERIES, "expression": corpus.EXPRS, "type": corpus.TYPES}[k])
            cmd = rng.choice(["format", "tree", "antlr-tree", "schema"])
            out.append(["cli", [cmd, sql if k == "query" else "SELECT " + (sql if k == "expression" else "1")] if cmd == "schema" else [cmd, k, sql]])
            continue
        if u < 0.3:
            x = rng.choice(NUMS)
            form = rng.choice(["%s", "x + %s", "SELECT %s", "DECIMAL '%s'", "ARRAY[%s, 1.5]", "SELECT x FROM a WHERE y > %s"])
            t = form % x
            k = "query" if t.startswith("SELECT") else "expression"
            out.append([["parse", k, t, "a"], ["print", "a", "DEFAULT", 4], ["str", "a"]] + ([["resolve", "a", corpus.SCHEMAS[0], None]] if k == "query" else []))
            continue
        if u < 0.33:
            # numbers that differ in one digit
            x = rng.choice(NUMS)
            i = rng.choice([i for i, c in enumerate(x) if c.isdigit()] + [len(x) - 1] * 3)
            y = rng.choice([x[:i] + str((int(x[i]) + 1) % 10) + x[i + 1:], x + "0" if "E" not in x and "." in x else x])
            form = rng.choice(["%s", "%s", "DECIMAL '%s'", "x + %s", "x IN (%s, 1)"])
            out.append([["parse", "expression", form % x, "a"], ["parse", "expression", form % y, "b"], ["equals", "a", "b"], ["assert_equals", "a", "b"], ["equals", "a", "a"]])
            continue
        if u < 0.39:
            x = rng.choice(NUMS)
            out.append([["build", ["c", "E:wrap_literal", [["dec", x]]], "a"], ["str", "a"],
                        ["build", ["c", "I:infer_type", [["dec", x]]], "b"], ["str", "b"],
                        ["build", ["o", rng.choice(["+", "-", "*", "/"]), ["c", "E:Field", ["x"]], ["dec", x]], "c"], ["str", "c"],
                        ["build", ["u", "neg", ["$", "a"]], "d"], ["str", "d"],
                        ["build", ["c", "E:wrap_literal", [["f", "1234567.891"]]], "e"], ["str", "e"]])
            continue
        if u < 0.5:
            # queries whose columns are found
            t = rng.choice(corpus.RESOLVABLE) if rng.random() < 0.5 else corpus.Scoped(rng).query(rng.choice([1, 2]))[0]
            s = corpus.SCHEMAS[1] if rng.random() < 0.6 else corpus.schema(rng)
            out.append([["parse", "query", t, "a"], ["resolve", "a", s, None], ["print", "a", rng.choice(["DEFAULT", "PRETTY"]), 4], ["desc", "a"]])
            continue
        p = Prog(rng, "r")
        prog = [p.make(0.05)]
        for _ in range(rng.randint(1, 4)):
            v = rng.random()
            o = p.resolve() if v < 0.25 else p.compose() if v < 0.4 else p.make(0.05) if v < 0.5 else p.antlr() if v < 0.55 else p.read()
            if o:
                prog.append(o)
        if rng.random() < 0.2:
            prog.append(["names"])
        out.append(prog)
    if rng.random() < 0.4:
        out.append(["visitor"])
    return out


def gen(rng, R):
    c = {"vector": vector(rng), "progs": programs(rng, rng.randint(60, 120))}
    if c["vector"]["env"]["HOME"] == "@":
        c["vector"]["env"].pop("HOME")
    return c


def reference(R, progs):
    """the reference environment: C.UTF-8, hash seed 0, default decimal context"""
    d = os.path.join(R.scratch, "env_%s_ref" % R.wid)
    os.makedirs(d, exist_ok=True)
    return R.run({"kind": "env", "progs": progs, "dir": d}, "fresh", 240)


def shim(R):
    so = os.path.join(R.scratch, "shim_%s.so" % R.wid)
    if not hasattr(R, "shim"):
        R.shim = None
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(procs.HERE, "shim.c"), "-ldl"], capture_output=True)
        if r.returncode == 0:
            R.shim = so
    return R.shim


def run_env(R, vec, progs, tag):
    env = procs.base_env(R.scratch)
    env.update(vec["env"])
    amb = dict(vec["ambient"])
    d = os.path.join(R.scratch, "env_%s_%s" % (R.wid, tag))
    os.makedirs(d, exist_ok=True)
    if amb.get("cwd"):
        amb["cwd"] = os.path.join(d, amb["cwd"])
    so = shim(R)
    if so and ("SIM_CLOCK_OFFSET" in vec["env"]):
        env["LD_PRELOAD"] = so
    spec, out = os.path.join(d, "spec.json"), os.path.join(d, "out.json")
    with open(spec, "w") as f:
        json.dump({"ambient": amb, "progs": progs, "dir": d}, f)
    if os.path.exists(out):
        os.unlink(out)
    R.count += 1
    args = [procs.PY, os.path.join(procs.HERE, "env_exec.py"), spec, out]
    for attempt in (0, 1):
        try:
            p = subprocess.run(args, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               preexec_fn=None if vec["aslr"] else procs.no_aslr, timeout=150 * (attempt + 1))
            break
        except subprocess.TimeoutExpired:
            if attempt:
                return None
    if p.returncode or not os.path.exists(out):
        return {"failed": p.stderr[-1500:].decode("utf-8", "replace")}
    with open(out) as f:
        return json.load(f)


def judge(case, R, st):
    progs = case["progs"]
    a = reference(R, progs)
    if a is None or a.get("hang") or a.get("crash"):
        raise procs.Harness("reference environment run failed: %s" % a)
    b = run_env(R, case["vector"], progs, "var")
    st.add("runs", 2)
    if b is None:
        return {"class": "hang", "text": "never ends in environment %s" % case["vector"]}
    if "failed" in b:
        return {"class": "failed", "text": "process fails in environment %s: %s" % (case["vector"], b["failed"])}
    st.seen(case["vector"], progs)
    for k in case["vector"]["env"]:
        st.add("fault:env-" + k)
    for k, v in case["vector"]["ambient"].items():
        if v not in (None, 0, False):
            st.add("fault:" + k)
    st.add("programs", len(progs))
    if b["asked"]:
        st.add("asked-env")
    for p, x, y in zip(progs, a["out"], b["out"]):
        if y == [["refused"]]:
            st.add("click-refuses-ascii-locale")
            continue
        if x != y:
            for i, (u, v) in enumerate(zip(x, y)):
                if u != v:
                    return {"class": "differs", "text": "%s op %d: reference %s, in the varied environment %s" % (p, i, u, v)}
            return {"class": "differs", "text": "%s: %s / %s" % (p, x, y)}
    return None


def paths(case):
    yield ("progs",)


def shrink_more(case):
    """simpler environments: drop one variable or ambient setting at a time"""
    for k in list(case["vector"]["env"]):
        c = json.loads(json.dumps(case))
        del c["vector"]["env"][k]
        yield c
    for k in list(case["vector"]["ambient"]):
        if case["vector"]["ambient"][k]:
            c = json.loads(json.dumps(case))
            c["vector"]["ambient"][k] = None
            yield c
    if case["vector"]["aslr"]:
        c = json.loads(json.dumps(case))
        c["vector"]["aslr"] = False
        yield c
