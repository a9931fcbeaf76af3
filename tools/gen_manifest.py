#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
BUILT = open(os.path.join(V, "tools", "built.txt")).read().split()
NOTE = {
 "C01": "seeded histories on real caldb code over simulated disk/clock; operations of different handles interleave at operation granularity",
 "C02": "oracle: brute force nearest/latest search over an independent reference map",
 "C03": "death, torn writes, power loss, ENOSPC/EIO at any storage call; every intermediate disk state shown to a concurrent reader",
 "C04": "seeded trees and listing orders, interrupted scans",
 "C05": "faults at any storage call of a save; every intermediate disk state inspected",
 "C06": "histories of edits, copies, saves, reloads in other processes (other hash seeds)",
 "C07": "start-ups killed or failing at any storage call, with legacy/edited configurations",
 "C08": "as C07, with user products and entries present",
 "C09": "allocation failures injected at any allocation call made from the step's code",
 "C10": "histories of dataset operations against a reference array model",
 "C11": "seeded step sequences against a reference state machine",
 "C12": "seeded step sequences with individual error tracking on and off, saves and reloads",
 "C13": "seeded recipes over synthetic and real steps; reference interpreter of the recipe",
 "C14": "death and errors at any storage call or step; differential against a fault-free run",
 "C15": "seeded session histories; differential against a fresh process",
 "C16": "the same trace in processes with different hash seed, clock, listing order and directory",
 "C17": "pyKLIP's process pool replaced by a simulated one under a seeded scheduler",
 "C18": "seeded histories of database content and recipes against a reference resolver",
 "C19": "seeded arrival orders; differential against a reference order",
}
NA = {
 "N01": "pure arithmetic on arrays: no schedule, clock, I/O or fault the result could depend on; its truth is numerical and simulation would only be random testing under another name",
 "N02": "pure statistics of one array computation; no nondeterminism behind a seam, faults cannot influence it",
 "N03": "pure numerical estimation from frames; no schedule, time, I/O or multi-party behaviour",
 "N04": "pure numerical optimisation and geometry; no schedule, time, I/O or fault dependence",
 "N05": "pure numerical photometry and unit conversion; no schedule, time, I/O or fault dependence",
 "N06": "pure numerical fitting of trap parameters; no schedule, time, I/O or fault dependence",
 "N07": "accuracy of an injected signal is numerical; the schedule-dependent part of PSF subtraction is decided under C17",
 "N08": "stateless predicates on one argument; no history, schedule or fault for them to depend on",
 "N09": "stateless decision on header values; no history, schedule or fault for it to depend on (its interaction with histories is decided under C18)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection",
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
