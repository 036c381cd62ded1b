"""C06: schema resolution."""
from . import corpus
from .common import Prog
from .p01 import switch_points
from .p03 import KINDS

RULE = (
    "a case resolves one to three queries (parsed) or relations (built) against a supplied schema: aborted 0-3 times at chosen "
    "instants and retried, repeated, or concurrently with other resolutions using the same schema "
    "object; the final column list, tree and SQL must equal those of one uninterrupted resolution "
    "and the supplied schema must be unchanged at every instant; non-trivial = an abort or switch "
    "landed inside a resolution, or it was repeated; distinct = different (query, schema, events)"
)
BATCH = 12


def query(rng, p):
    t = query1(rng)
    if rng.random() < 0.15 and not t.startswith(("WITH", "(")):
        # a name of the caller's schema means something else in this query
        d = rng.choice(["TABLE nowhere", "TABLE b", "SELECT * FROM c", "VALUES 1", "SELECT 'q' AS x", query1(rng)])
        t = "WITH %s AS (%s) %s" % (rng.choice(["a", "b", "c"]), d, t)
    return t


def query1(rng):
    if rng.random() < 0.05:
        return rng.choice(corpus.UNRESOLVABLE)
    if rng.random() < 0.35:
        return corpus.Scoped(rng).query(rng.choice([1, 1, 2]))[0]
    if rng.random() < 0.65:
        return rng.choice(corpus.RESOLVABLE)
    if rng.random() < 0.5:
        return rng.choice(corpus.QUERIES)
    return corpus.Gen(rng, names=["x", "y", "w", "v"], tabs=["a", "b", "c"]).query(2)


def gen(rng, R):
    mode = rng.choice(["fresh", "fresh", "warm", "cold"])
    kind = rng.choice(["abort", "abort", "abort", "repeat", "concurrent", "concurrent"])
    pre = [["build", corpus.schema(rng), "S"]]
    k = 1 if kind != "concurrent" else rng.choice([2, 2, 3])
    for i in range(k):
        if rng.random() < 0.18:
            r = (corpus.rand_relation if rng.random() < 0.6 else corpus.rand_query)(rng, rng.choice([1, 2, 3]))
            pre.append(["build", r, "q%d" % i])
            continue
        pre.append(["parse", "query", query(rng, None), "q%d" % i])
    u = rng.random()
    gran = "start" if u < 0.15 else "line" if u < 0.6 else "instr"
    case = {"mode": mode, "gran": gran, "kind": kind, "pre": pre, "k": k, "acts": [], "faults": [], "again": 0}
    op = lambda i: ["resolve", "q%d" % i, ["$", "S"], None]
    if kind == "abort":
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.12:
                case["faults"].append({"rlimit": rng.choice([12, 14, 17, 20, 25, 32, 45])})
                continue
            s = switch_points(rng, R, pre, [op(0)], gran, "treeno", mode, 1)
            if s:
                case["faults"].append({"step": s[0], "exc": rng.choice(KINDS)})
        case["again"] = rng.choice([0, 0, 1])
    elif kind == "repeat":
        case["again"] = rng.choice([1, 2, 3])
    else:
        for i in range(k):
            for s in switch_points(rng, R, pre, [op(i)], gran, "treeno", mode, rng.choice([1, 2, 5])):
                case["acts"].append([i, s, "sw", rng.choice([x for x in range(k) if x != i])])
    return case


def judge(case, R, st):
    pre, k = case["pre"], case["k"]
    op = lambda i: ["resolve", "q%d" % i, ["$", "S"], None]
    after = lambda i: [["desc", "q%d" % i], ["print", "q%d" % i, "DEFAULT", 4], ["print", "q%d" % i, "PRETTY", 4]]
    phases = [{"ops": pre + [["desc", "S"]] + [["print", "q%d" % i, "DEFAULT", 4] for i in range(k)]}]
    sim = {"gran": case["gran"], "watch": ["S"], "obs_all": {str(i): 1 if case["gran"] != "instr" else 4 for i in range(k)}}
    if case["kind"] == "concurrent":
        phases.append(dict(sim, threads=[[op(i)] for i in range(k)], acts=case["acts"]))
        phases.append({"ops": [["desc", "S"]] + [o for i in range(k) for o in after(i)]})
    else:
        for f in case["faults"]:
            if "rlimit" in f:
                phases.append({"ops": [["rlimit", f["rlimit"], op(0)]]})
            else:
                phases.append(dict(sim, threads=[[op(0)]], acts=[[0, f["step"], "raise", f["exc"]]]))
            phases.append({"ops": [["desc", "S"], ["print", "q0", "DEFAULT", 4]]})
        for _ in range(1 + case["again"]):
            phases.append({"ops": [op(0), ["desc", "S"]] + after(0)})
    x = R.run({"phases": phases}, case["mode"], timeout=120)
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "resolution hangs"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    ps = x["phases"]
    n = len(pre)
    schema0 = ps[0]["out"][n]
    sql0 = ps[0]["out"][n + 1:]
    # the uninterrupted resolution, alone
    want = [R.alone(pre + [op(i)] + after(i))[n:] for i in range(k)]
    events = []
    for ph in ps[1:]:
        if "obs" in ph and ph["obs"]["bad"]:
            b = ph["obs"]["bad"][0]
            return {"class": "schema", "text": "supplied schema changed at %s" % (b,), "log": ph["log"]}
        if ph.get("verdict"):
            return {"class": ph["verdict"][0], "text": str(ph["verdict"])}
        if "steps" in ph:
            st.add("steps", sum(ph["steps"]))
            for f in ph["fired"]:
                st.add("fault:" + f)
            events.append(ph["log"])
    st.add("kind:" + case["kind"])
    if any(events) or case["again"]:
        st.seen(case["pre"], events, case["again"])
    if case["kind"] == "concurrent":
        outs = ps[1]["out"]
        fin = ps[2]["out"]
        if fin[0] != schema0:
            return {"class": "schema", "text": "supplied schema changed"}
        for i in range(k):
            if outs[i][0] != want[i][0]:
                return {"class": "result", "text": "query %d resolved to %s, alone %s" % (i, outs[i][0], want[i][0]), "log": ps[1]["log"]}
            if fin[1 + 3 * i: 4 + 3 * i] != want[i][1:]:
                return {"class": "tree", "text": "query %d tree differs after concurrent resolution" % i, "log": ps[1]["log"]}
        return None
    j = 1
    for f in case["faults"]:
        ph, chk = ps[j], ps[j + 1]
        j += 2
        out = ph["out"][0] if "rlimit" in f else ph["out"][0][0]
        if out[0] == "ok" and out != want[0][0]:
            return {"class": "wrong-result", "text": "interrupted resolve returned %s instead of %s" % (out, want[0][0]), "log": ph.get("log")}
        if chk["out"][0] != schema0:
            return {"class": "schema", "text": "supplied schema changed by aborted resolution", "log": ph.get("log")}
        if chk["out"][1] != sql0[0]:
            return {"class": "sql", "text": "query prints %s after an aborted resolution, before %s" % (chk["out"][1], sql0[0]), "log": ph.get("log")}
    for ph in ps[j:]:
        o = ph["out"]
        if o[0] != want[0][0]:
            return {"class": "result", "text": "resolve gave %s, uninterrupted %s" % (o[0], want[0][0]), "log": [q.get("log") for q in ps]}
        if o[1] != schema0:
            return {"class": "schema", "text": "supplied schema changed"}
        if o[3] != sql0[0]:
            return {"class": "sql", "text": "query prints %s after resolution, before %s" % (o[3], sql0[0])}
        if o[2:] != want[0][1:]:
            return {"class": "tree", "text": "tree after (re)resolution differs from the uninterrupted one", "log": [q.get("log") for q in ps]}
    return None


def paths(case):
    yield ("acts",)
    yield ("faults",)
