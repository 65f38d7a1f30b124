#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
NA = {
    "C30": "Parsing and printing a connection string is a pure function of its text: no concurrency, time, I/O or other party for a simulator to decide. (What the parsed connection then does is covered: every simulated run parses generated connection strings in all documented spellings, C21.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh check {i} quick",
        "thorough_cmd": f"./check.sh check {i} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over pipelines, schedules, delays, short I/O and faults",
        "level": "exploration",
        "level_note": "Seeded random search, no completeness claim. The real pa2 (main, configuration, all components) runs; the async-std runtime, clock, hash seeds, files, pipes and launched programs are simulated. Trusts that the simulated kernel behaves as the real one does and that async-std's own executor, reactor and blocking pool are correct.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: pa2 is compiled unchanged against a forked async-std (async-std-sim) that is the seam.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
