"""C08: generators leave the old file or the complete new one."""
import gzip
import hashlib
import json
import os
import shutil

from .common import Prog  # noqa: F401

RULE = (
    "a case is 1-3 successive runs of one generator script in a scratch directory (target present or "
    "absent, leftovers of a killed run), some of them two invocations at once, one process running at a "
    "time and handing over at seeded lines and I/O operations; each with seeded faults: process killed at "
    "a line of the script or before/inside/after an I/O operation, disk errors and short writes, exceptions "
    "at a line, network and HTTP faults, prompt answers; the target is examined before every I/O operation "
    "and after every run; non-trivial = a fault or a hand-over; distinct = different (tool, initial state, "
    "faults and hand-overs fired with positions)"
)
BATCH = 20
REAL = "the scripts, treeno, requests/urllib3/http.client, click, io buffering and the real file system: real code"
STUB = "TLS socket, raw file writes under fault, prompts, process kill (immediate _exit): simulated"
ASSUME = ["a killed process loses only what it had not handed to the operating system (no power loss)"]
OLD = "# previous content\n" + "old line\n" * 50

LETTERS = "fragment LETTER\n    : [A-Z]\n    ;\n"


def grammar_body(rng):
    lines = ["grammar SqlBase;", "/* comment with in and or */", "singleStatement", "    : statement EOF", "    ;"]
    for i in range(rng.choice([3, 30, 400])):
        lines.append(rng.choice([
            "rule%d : expression IN list # %s" % (i, rng.choice(["in", "all", "other"])),
            "%s: '%s';" % (("KW_" + "ABCDEFGH"[i % 8],) * 2),
            "    | NOT primaryExpression (AND | OR) and x%d" % i,
            "// is a comment %d" % i,
        ]))
    s = "\n".join(lines) + "\n" + LETTERS
    if rng.random() < 0.15:
        s += "// caf\u00e9\n"
    return s


def http(body, status="200 OK", headers=None, chunked=False, length=True, gz=False, cut=None, tail=None):
    """segments of a response; cut = fraction of the body that arrives before `tail`"""
    h = {"Content-Type": "text/plain; charset=utf-8"}
    b = body.encode("utf-8")
    if gz:
        b = gzip.compress(b, mtime=0)
        h["Content-Encoding"] = "gzip"
    if chunked:
        h["Transfer-Encoding"] = "chunked"
        n = max(1, len(b) // 3)
        parts = [b[i:i + n] for i in range(0, len(b), n)]
        b = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
    elif length:
        h["Content-Length"] = str(len(b))
    h.update(headers or {})
    head = "HTTP/1.1 %s\r\n%s\r\n\r\n" % (status, "\r\n".join("%s: %s" % x for x in h.items()))
    text = b.decode("latin-1")
    if cut is not None:
        text = text[: int(len(text) * cut)]
    segs = [head]
    step = max(1, len(text) // 4)
    segs += [text[i:i + step] for i in range(0, len(text), step)] or [""]
    if tail:
        segs.append([tail])
    return segs


def net_case(rng, body):
    """-> (responses, kind): kind 'ok' when the complete body is delivered"""
    u = rng.random()
    kw = {"chunked": rng.random() < 0.3, "gz": rng.random() < 0.25}
    if not kw["chunked"] and rng.random() < 0.05:
        kw["length"] = False
        return [http(body, **kw)], "ok"
    if u < 0.45:
        return [http(body, **kw)], "ok"
    if u < 0.65:
        cut = rng.choice([0.0, 0.2, 0.5, 0.9, 0.99])
        return [http(body, cut=cut, tail=rng.choice(["eof", "eof", "eof", "reset", "timeout", "interrupt", "kill"]), **kw)], "cut"
    if u < 0.85:
        st = rng.choice(["404 Not Found", "500 Internal Server Error", "503 Service Unavailable", "403 Forbidden", "429 Too Many Requests", "400 Bad Request"])
        eb = rng.choice(["404: Not Found", "", "<html>oops</html>", body])
        return [http(eb, status=st, **kw)], "error"
    if u < 0.9:
        loc = {"Location": "https://raw.githubusercontent.com/other"}
        nxt = rng.choice([["refused"], http(body, **kw), http("404: Not Found", status="404 Not Found")])
        return [http("", status=rng.choice(["301 Moved Permanently", "302 Found"]), headers=loc), nxt], (
            "ok" if nxt and "200 OK" in str(nxt[0]) else "error")
    return [[rng.choice(["refused", "dns", "unreachable", "timeout-connect", "tls", "interrupt"])]], "connect"


ERRNO = ["ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES"]


def gen_run(rng, tool, body, hint):
    r = {"replace": rng.random() < 0.75, "io": {}, "acts": [], "answers": [], "stdout_fail": 0}
    if tool == "grammar":
        r["net"], r["netkind"] = net_case(rng, body)
        r["answers"] = ["y", "y", "y"]
        u = rng.random()
        if u < 0.2:
            r["answers"][rng.randrange(3)] = rng.choice(["n", "", "EOF", "INT", "maybe"])
            if rng.random() < 0.3:
                r["answers"] = r["answers"] + ["y"]
    u = rng.random()
    nio, steps = hint
    if u < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.randint(1, max(2, nio + 1))
            k = rng.choice(["kill", "killafter", "KeyboardInterrupt", "short"] + ERRNO)
            r["io"][str(n)] = [k, rng.choice([0.0, 0.3, 0.7, 1.0])] if k in ("killafter", "short") else [k]
    elif u < 0.7:
        s = rng.randint(1, max(1, steps)) if rng.random() < 0.4 else max(1, steps - rng.randint(0, 40))
        r["acts"] = [[0, s, "kill", None] if rng.random() < 0.5 else [0, s, "raise", rng.choice(["KeyboardInterrupt", "MemoryError", "Aborted"])]]
    elif u < 0.75:
        r["stdout_fail"] = rng.randint(1, 6)
    return r


def overlap(rng, r, hint):
    """hand-over points of one of two overlapping invocations"""
    nio, steps = hint
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.6:
            r["io"].setdefault(str(rng.randint(1, nio + 1)), ["yield"])
        else:
            s = max(1, steps - rng.randint(0, 25)) if rng.random() < 0.8 else rng.randint(1, max(1, steps))
            r["acts"].append([0, s, "yield", None])


def hint_for(R, tool, body, name):
    key = "HINT" + tool + name + str(len(body or ""))
    if key not in R.memo:
        x, content = one_run(R, {"tool": tool, "body": body, "name": name}, {
            "replace": True, "io": {}, "acts": [], "answers": ["y"] * 3, "stdout_fail": 0,
            "net": [http(body)] if body else []}, OLD)
        R.memo[key] = [x.get("nio", 5), x.get("steps", 50)]
    return R.memo[key]


def gen(rng, R):
    tool = rng.choice(["visitor", "grammar", "grammar"])
    body = grammar_body(rng) if tool == "grammar" else None
    name = rng.choice(["out.txt", "out.txt", "sub/out.txt", "./out.txt"])
    case = {"tool": tool, "body": body, "name": name, "old": rng.choice([OLD, OLD, OLD, None, "", "x" * 30000]),
            "debris": rng.random() < 0.3, "runs": []}
    hint = hint_for(R, tool, body, name)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = gen_run(rng, tool, body, hint)
        case["runs"].append(r)
        if rng.random() < 0.3:
            r["with"] = o = gen_run(rng, tool, body, hint)
            if tool == "grammar" and rng.random() < 0.5:
                o["body"] = body2 = grammar_body(rng)
                o["net"], o["netkind"] = net_case(rng, body2)
            for x in (r, o):
                if rng.random() < 0.6:  # mostly without further faults
                    x["io"], x["acts"], x["stdout_fail"] = {}, [], 0
                    if tool == "grammar":
                        x["net"], x["netkind"], x["answers"] = [http(x.get("body", body))], "ok", ["y"] * 3
                overlap(rng, x, hint)
            r["first"] = rng.randrange(2)
    return case


def workdir(R):
    d = os.path.join(R.scratch, "gen_%s" % R.wid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "sub"))
    return d


def run_spec(case, run, d):
    argv = (["--file-name", case["name"]] if case["tool"] == "visitor" else [case["name"]])
    if run["replace"]:
        argv.append("--replace")
    return {"kind": "gens", "tool": case["tool"], "root": d, "argv": argv, "io": run["io"], "acts": run["acts"],
            "answers": run["answers"], "stdout_fail": run["stdout_fail"], "net": run.get("net", []),
            "target": os.path.join(d, case["name"])}


def one_run(R, case, run, old, d=None):
    """-> (result, content of the target afterwards or None)"""
    own = d is None
    if own:
        d = workdir(R)
        if old is not None:
            with open(os.path.join(d, case["name"]), "w") as f:
                f.write(old)
    spec = run_spec(case, run, d)
    if "with" in run:
        spec = {"kind": "gens", "pair": [spec, run_spec(case, run["with"], d)], "first": run["first"]}
    x = R.run(spec, "cold")
    try:
        with open(os.path.join(d, case["name"]), "rb") as f:
            content = f.read()
    except FileNotFoundError:
        content = None
    except OSError as e:
        content = b"<%s>" % type(e).__name__.encode()
    return x, content


def new_content(R, case):
    key = "NEW" + json.dumps([case["tool"], case["body"], case["name"]])
    if key not in R.memo:
        x, c = one_run(R, case, {"replace": False, "io": {}, "acts": [], "answers": ["y"] * 3, "stdout_fail": 0,
                                 "net": [http(case["body"])] if case["body"] else []}, None)
        R.memo[key] = [x.get("status"), None if c is None else c.decode("latin-1"), x.get("how")]
    s, c, how = R.memo[key]
    return s, None if c is None else c.encode("latin-1"), how


def sha(b):
    return None if b is None else hashlib.sha1(b).hexdigest()


def judge(case, R, st):
    s, new, how = new_content(R, case)
    if s != 0 or not new:
        return {"class": "faultless", "text": "fault-free generation fails (status %s, %s) or leaves no file" % (s, how)}
    for r in case["runs"]:
        if "with" in r and "body" in r["with"]:
            new_content(R, dict(case, body=r["with"]["body"]))  # before the directory is set up
    d = workdir(R)
    old = case["old"]
    target = os.path.join(d, case["name"])
    if old is not None:
        with open(target, "w") as f:
            f.write(old)
    if case["debris"]:
        for n in (".tmp", "~", ".bak", ".new", ".part"):
            with open(target + n, "w") as f:
                f.write("left over from a killed run")
    cur = None if old is None else old.encode()
    events = []
    for i, run in enumerate(case["runs"]):
        both = [run] + ([run["with"]] if "with" in run else [])
        news = [new_content(R, dict(case, body=r["body"]))[1] if "body" in r else new for r in both]
        y, got = one_run(R, case, run, None, d)
        st.add("runs", len(both))
        if y.get("hang"):
            return {"class": "hang", "text": "generator never ends"}
        if y.get("crash"):
            return {"class": "crash", "text": y["crash"]}
        xs = y["pair"] if len(both) > 1 else [y]
        ok = [sha(cur)] + [sha(n) for n in news]
        if len(both) > 1:
            st.add("overlapping")
        moved = None
        for r, x in zip(both, xs):
            if x.get("killed"):
                st.add("fault:kill")
                events.append(["kill", r["io"], r["acts"], r.get("netkind")])
            else:
                st.add("steps", x["steps"])
                for k, n in x["fired"].items():
                    st.add("fault:" + k, n)
                if r.get("netkind") == "error":
                    st.add("fault:http-error")
                if x["fired"] or r.get("netkind", "ok") != "ok":
                    events.append([x["fired"], r["io"], x["log"], r.get("netkind")])
                for at, h in x["seen"]:
                    if h not in ok:
                        moved = "before I/O operation %d" % at
        info = "run %d%s: %s" % (i, " (two at once)" if len(both) > 1 else "", "; ".join(
            "replace=%s killed=%s status=%s (%s) io=%s acts=%s net=%s answers=%s" % (
                r["replace"], x.get("killed"), x.get("status"), x.get("how"), r["io"], r["acts"], r.get("netkind"), r["answers"])
            for r, x in zip(both, xs)))
        log = [[x.get("iolog"), x.get("log")] for x in xs]
        if sha(got) not in ok:
            what = "missing" if got is None else "empty" if not got else "partial or wrong (%d bytes, new %s)" % (len(got), [len(n) for n in news])
            return {"class": "torn", "text": "target is %s; %s" % (what, info), "log": log}
        if moved:
            return {"class": "momentarily", "text": "target is neither the old nor the new content %s; %s" % (moved, info), "log": log}
        if not any(r["replace"] for r in both) and cur is not None and got != cur:
            return {"class": "touched", "text": "existing file changed without the replace option; %s" % info, "log": log}
        if any(x.get("status") == 0 for x in xs) and got not in news:
            return {"class": "false-success", "text": "success reported but the new content is not there; %s" % info, "log": log}
        st.add("outcome:" + ("new" if got in news and cur != got else "kept"))
        cur = got
    if events:
        st.seen(case["tool"], case["old"], events)
    shutil.rmtree(d, ignore_errors=True)
    return None


def paths(case):
    yield ("runs",)
    for i in range(len(case["runs"])):
        yield ("runs", i, "acts")
        if "with" in case["runs"][i]:
            yield ("runs", i, "with", "acts")


def shrink_more(case):
    """fewer I/O faults and hand-overs; one invocation instead of two"""
    for i, r in enumerate(case["runs"]):
        for p in (["runs", i], ["runs", i, "with"]):
            x = case
            for k in p:
                x = x.get(k) if isinstance(x, dict) else x[k]
                if x is None:
                    break
            if x is None:
                continue
            for n in x["io"]:
                c = json.loads(json.dumps(case))
                z = c
                for k in p:
                    z = z[k]
                del z["io"][n]
                yield c
        if "with" in r:
            c = json.loads(json.dumps(case))
            del c["runs"][i]["with"]
            yield c
