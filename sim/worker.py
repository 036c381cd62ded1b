"""One search worker: reads batch numbers, prints one JSON line per batch."""
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import common, procs  # noqa: E402


def main():
    prop, scratch, wid, seed, tier, hashseed = sys.argv[1:7]
    M = importlib.import_module("sim.p" + prop[1:])
    R = procs.Runner(scratch, wid, hashseed)
    R.tier = tier
    for line in sys.stdin:
        req = json.loads(line)
        b = req["batch"]
        st = common.Stats()
        out = {"batch": b, "violations": [], "errors": []}
        t0 = time.monotonic()
        n0 = R.count
        R.batch = {}  # what the cases of this batch have learnt
        for i in range(M.BATCH):
            rng = random.Random("%s:%s:%d:%d" % (seed, prop, b, i))
            case = None
            try:
                case = M.gen(rng, R)
                if case is None:
                    continue
                st.add("cases")
                v = M.judge(case, R, st)
                if i == 0:
                    st.sample(case)
                if v:
                    out["violations"].append({"case": case, "detail": v, "batch": b, "index": i})
                    break
            except procs.Harness as e:
                out["errors"].append(str(e)[-2000:])
                break
            except Exception:
                out["errors"].append(traceback.format_exc()[-2000:])
                break
        out["stats"] = st.dump()
        out["wall"] = time.monotonic() - t0
        out["procs"] = R.count - n0
        if req.get("trace"):
            out["trace"] = getattr(R, "trace", None)
        print(json.dumps(out), flush=True)
    R.close()


main()
