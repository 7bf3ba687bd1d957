#!/usr/bin/env python3
"""Writes engine/checks.json and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHED = "a run is a plan (workload, faults and their timing) and a schedule, both drawn from one seed; "
SUBREAL = ["subscribe", "cache", "ctree", "match", "coalesce", "path", "value", "metadata", "latency", "client/gnmi-free server path"]
SUBREAL = ["subscribe", "cache", "ctree", "match", "coalesce", "path", "value", "metadata", "latency"]
SUBSTUB = ["gRPC server stream: in-memory GNMI_SubscribeServer with stalls, disconnects and failing Sends", "glog: recording stub", "device streams: scripted writers calling Cache.GnmiUpdate/Reset/Remove/Add"]
CACHEREAL = ["cache", "ctree", "path", "value", "metadata", "latency"]
CACHESTUB = ["glog: recording stub", "cache.Now / latency.Now: the simulated clock"]
SUBFAULTS = ["slow_client", "client_disconnect", "send_error", "target_reset", "target_remove", "process_stall_clock_jump"]
SUBRULE = SCHED + "non-trivial: a stream was judged idle, a snapshot was checked, or a call was rejected, with at least one writer operation in the run"

# property: (harnesses, rule, real, stub, assumptions, fault kinds, probes, technique, note)
def H(name, cmd, quick, race=False, share=1.0):
    d = {"name": name, "cmd": cmd, "quick": quick}
    if race: d["race"] = True
    if share != 1.0: d["share"] = share
    return d

P = {}
def check(id, harnesses, rule, real, stub, technique, note, assume=(), faults=(), probes=()):
    P[id] = dict(h=harnesses, rule=rule, real=list(real), stub=list(stub), assume=list(assume), faults=list(faults), probes=list(probes), technique=technique, note=note)

exec(open(os.path.join(ROOT, "tools", "checks.py")).read())

NA = [
    {"property": "C09", "reason": "single-goroutine data-structure contract: no schedule, clock, fault or I/O for a simulator to decide (C10 decides the concurrent contract of the same tree)"},
    {"property": "C19", "reason": "pure functions of their input: no schedule, clock, fault or I/O for a simulator to decide"},
]
pending = sorted({"C%02d" % i for i in range(1, 21)} - set(P) - {n["property"] for n in NA})
for i in pending:
    NA.append({"property": i, "reason": "no check built yet"})

json.dump({"checks": {k: {"rule": v["rule"], "harnesses": v["h"], "real": v["real"], "stub": v["stub"], "assumptions": v["assume"], "fault_kinds": v["faults"], "probes": v["probes"]} for k, v in sorted(P.items())}}, open(os.path.join(ROOT, "engine", "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [
    {"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "technique": "deterministic simulation: " + v["technique"], "level": "exploration", "level_note": v["note"]} for k, v in sorted(P.items())],
    "not_applicable": sorted(NA, key=lambda n: n["property"])}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
