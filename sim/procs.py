"""Worker side: start fork servers and run specifications in them."""
import ctypes
import json
import os
import select
import signal
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def base_env(scratch):
    return {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": os.environ.get("SIM_DONTWRITE", "1"),
        "SIM_REPO": os.environ.get("SIM_REPO", "/repo"),
        "SIM_SCRATCH": scratch,
    }


class Harness(Exception):
    """the simulator itself failed (never a verdict about treeno)"""


class Hang(Exception):
    pass


class Crash(Exception):
    pass


class Zygote:
    def __init__(self, mode, scratch, wid, hashseed="0"):
        self.mode = mode
        self.base = os.path.join(scratch, "z%s_%s" % (wid, mode))
        env = base_env(scratch)
        env["PYTHONHASHSEED"] = hashseed
        self.errf = open(self.base + ".err", "wb")
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "zygote.py"), mode, self.base],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
            env=env, cwd=scratch, preexec_fn=no_aslr, bufsize=0,
        )
        self.buf = b""
        self.ready = False

    def _line(self, deadline):
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 4096)
            if not d:
                raise Harness("fork server died: " + self._err())
            self.buf += d
        l, _, self.buf = self.buf.partition(b"\n")
        return l

    def _err(self):
        try:
            return open(self.base + ".err", "rb").read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return "?"

    def run(self, spec, timeout=60.0):
        if not self.ready:
            if self._line(time.monotonic() + 120) != b"ready":
                raise Harness("fork server not ready: " + self._err())
            self.ready = True
        out = self.base + ".out"
        if os.path.exists(out):
            os.unlink(out)
        with open(self.base + ".spec", "w") as f:
            json.dump(spec, f)
        os.write(self.p.stdin.fileno(), b"r")
        pid = self._line(time.monotonic() + 60)
        if pid is None:
            raise Harness("fork server silent")
        st = self._line(time.monotonic() + timeout)
        if st is None:
            os.kill(int(pid), signal.SIGKILL)
            self._line(time.monotonic() + 60)
            raise Hang()
        st = int(st)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            return {"killed": True}
        if st != 0:
            raise Crash("status %d" % st)
        with open(out) as f:
            res = json.load(f)
        if "harness_error" in res:
            raise Harness(res["harness_error"])
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.close()


class Runner:
    """All fork servers of one worker, plus memoised baselines."""

    def __init__(self, scratch, wid="0", hashseed="0"):
        self.scratch, self.wid, self.hashseed = scratch, wid, hashseed
        self.z = {}
        self.memo = {}
        self.count = 0
        self.base_runs = 0
        self.batch = {}

    def zygote(self, mode):
        z = self.z.get(mode)
        if z is None:
            z = self.z[mode] = Zygote(mode, self.scratch, self.wid, self.hashseed)
        return z

    def run(self, spec, mode="fresh", timeout=60.0):
        self.count += 1
        try:
            return self.zygote(mode).run(spec, timeout)
        except Hang:
            # a slow machine is not a hang: once more with all the time in the world
            try:
                return self.zygote(mode).run(spec, timeout * 2)
            except Hang:
                return {"hang": True, "phases": []}
        except Crash:
            try:
                return self.zygote(mode).run(spec, timeout)
            except Crash as e:
                return {"crash": str(e), "phases": []}

    def alone(self, ops, mode="fresh"):
        """outcomes of a plain sequence of operations in a fresh process"""
        key = mode + json.dumps(ops, separators=(",", ":"))
        r = self.memo.get(key)
        if r is None:
            self.base_runs += 1
            x = self.run({"phases": [{"ops": ops}]}, mode)
            if x.get("hang") or x.get("crash"):
                r = [["err", "<%s>" % ("hang" if x.get("hang") else "crash")]] * len(ops)
            else:
                r = x["phases"][0]["out"]
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[key] = r
        return r

    def profile(self, pre, prog, gran, scope, mode="fresh", limit=6000, again=False):
        """what the program does alone; `again`: also which of its steps a second run of
        the same program does not repeat (things done once in a process)"""
        key = "P" + "A" * again + mode + gran + scope + json.dumps([pre, prog], separators=(",", ":"))
        r = self.memo.get(key)
        if r is None:
            self.base_runs += 1
            x = self.run(
                {"phases": [{"ops": pre}] + [{"threads": [prog], "gran": gran, "scope": scope, "profile": limit}] * (1 + again)},
                mode,
            )
            if x.get("hang") or x.get("crash") or len(x["phases"]) < 2 or x["phases"][1].get("verdict"):
                r = None
            else:
                p = x["phases"][1]
                r = {
                    "steps": p["steps"][0],
                    "opsteps": p["opsteps"][0],
                    "trace": p["profile"]["trace"][0],
                    "locs": p["profile"]["locs"],
                    "hot": p["profile"]["hot"],
                    "edges": p["profile"]["edges"],
                    "out": p["out"][0],
                    "once": [],
                }
                if again and len(x["phases"]) == 3 and "profile" in x["phases"][2]:
                    a, b = {}, {}
                    for d, q in ((a, p["profile"]), (b, x["phases"][2]["profile"])):
                        for l in q["trace"][0]:
                            l = q["locs"][l]
                            d[l] = d.get(l, 0) + 1
                    if r["steps"] < limit:
                        r["once"] = [i for i, l in enumerate(r["locs"]) if a.get(l, 0) > b.get(l, 0) and not l.startswith("_ModuleLock")]
            self.memo[key] = r
        return r

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}
