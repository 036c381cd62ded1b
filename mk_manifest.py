#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of implemented checks."""
import glob
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": ("seeded schedule search in a deterministic thread simulator (sys.monitoring preemption), differential oracle: same call alone",
            "Sampled interleavings at function/line/bytecode granularity; treeno and parser code real, scheduling simulated; trusts CPython and the alone run of the same tree as reference."),
    "C02": ("seeded history search, every call compared with its backward slice in a fresh process",
            "Sampled histories; reference is the same tree in a fresh process; an error present in every history is out of reach by design."),
    "C03": ("deterministic fault injection: exceptions at chosen instants, recursion limits; later calls against a fault-free process",
            "Sampled crash points; points inside clean-up code (finally/except/with entry and exit) are excluded."),
    "C04": ("deterministic simulation: operands described at every line or bytecode step of reading operations, with injected aborts",
            "Sampled operands and operations; every step of a run is observed at line granularity; private attributes are not observed."),
    "C05": ("seeded two-client histories with in-place edits, every call compared with its backward slice in a fresh process",
            "Sampled pairs of trees; all public mutable parts of one client's trees are edited."),
    "C06": ("deterministic fault injection and schedule search over schema resolution, against the uninterrupted resolution",
            "Sampled queries, schemas, abort points and interleavings; column lists, trees, SQL and the supplied schema are compared."),
    "C07": ("deterministic simulation of the command line on a simulated output device with injected stream faults",
            "Sampled commands, inputs, faults; real treeno/typer/io code on a simulated raw device."),
    "C08": ("deterministic crash and I/O-fault injection over the generators in a scratch directory with a simulated network",
            "Kill points at every line and I/O call of the scripts are sampled; process crashes (not power loss) are modelled."),
    "C09": ("seeded environment vectors in fresh interpreters, differential against a reference environment",
            "Sampled environments: hash seed, decimal context, locale, time zone, clock, pid, cwd, home, terminal, gc, random state."),
    "C10": ("seeded import orders, interrupted and concurrent imports in fresh interpreters, against the all-imported process",
            "Sampled import/definition/call sequences; every registered built-in function is exercised."),
    "C11": ("seeded soak histories with failing and aborted calls; process state measured against number of distinct inputs",
            "Sampled histories of up to a few hundred distinct inputs; the parser engine's prediction caches are excluded."),
}
NA = {
    "F01": "pure function of its input (print/parse round trip): no schedule, clock, fault or interleaving takes part, so simulation would only be input generation under another name",
    "F02": "pure function of its input (white space of the printed form)",
    "F03": "pure function of its input (operator tree to text)",
    "F04": "pure function of its input (literal and identifier quoting)",
    "F05": "pure function of its input (acceptance of a text)",
    "F06": "pure function of its input, and the oracle is Trino itself, which is not available here",
    "F07": "pure function of query and catalogue; its interruption, repetition and concurrency are C06",
    "F08": "pure function of its input (type parameters)",
    "F09": "static fact about the node classes; no schedule or fault takes part",
    "F10": "pure function of two trees; that it does not change or race on them is C01 and C04",
}
props = [json.loads(l) for l in open("properties.jsonl")]
done = {os.path.basename(f)[1:-3] for f in glob.glob("sim/p[0-9][0-9].py")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i[0] == "C" and i[1:] in done:
        t, note = TECH[i]
        checks.append(
            {"property": i, "quick_cmd": "%s check.py %s --tier quick" % (PY, i),
             "thorough_cmd": "%s check.py %s --tier thorough" % (PY, i),
             "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(
    {"version": 1, "setup_cmd": "%s -c \"import sys; sys.path.insert(0, '.'); import sim.search\"" % PY,
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the seams are sys.monitoring, patched locks/clocks/streams/sockets and process environments. Replay: %s replay.py FILE." % PY},
    open("MANIFEST.json", "w"), indent=1)
