#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after a change)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
T = "deterministic simulation with fault injection: seeded search over "
TECH = {
    "C01": "deliveries of random script libraries with seeded answers, budget exhaustion, errors, refused includes; disposition oracle + reference model",
    "C02": "every instruction budget of random deliveries, compared as truncations of the ample run; reference model lower bound",
    "C03": "deliveries under tight limits, conservation counters over the history + reference model",
    "C04": "capability revocation between compilation, storage and delivery; effect-freedom oracle + reference model",
    "C05": "host answers, acknowledgement faults and short-circuiting; query-by-query reference model, paired runs with different acknowledgements",
    "C06": "interleavings of concurrent deliveries sharing runtime, scripts and caches, with abandonment; equality with solo runs",
    "C07": "suspension points: copy, crash, restore, resume; equality with the uninterrupted run",
    "C08": "stored images with restart, torn and damaged writes; equality of histories and rejection oracle",
    "C09": "edit histories; announced versions compared byte by byte with an independent message editor",
    "C10": "include graphs, missing and late scripts, returns and stops; reference model of scopes and cache",
    "C11": "byzantine hosts: wrong-kind, unasked and late inputs; crash, progress, limit and disposition oracles",
    "C12": "damaged scripts, messages and images and extreme limits; crash, progress and disposition oracles",
    "C13": "suspending function calls in expressions with seeded results; reference evaluator of calls and arguments",
    "C14": "clock jumps and skew during suspended deliveries; reference model of dates",
    "C15": "a duplicate store with expiry, concurrent deliveries, crashes and retries in simulated time; at-most-once and must-reply oracles + reference model",
    "C16": "closed mail networks with duplication, delay, reordering, loss and crashes; bounded-quiescence oracle",
    "C17": "header edit histories; reference message editor and protected-header invariant",
    "C18": "hostile senders, envelopes and variables; structural oracle over generated mail + reference model",
    "C19": "part loops with breaks, suspensions and includes; reference model of visits",
    "C20": "whole-language random scripts, messages, settings and host answers; independent interpreter as refinement oracle",
    "C21": "a duplicate store with expiry, concurrent deliveries, crashes and retries in simulated time; identifier model and history check",
}
NOTE = "Seeded random search (fixed seeds, exactly repeatable), not exhaustive: {0} Trusted: mail-parser, the oracles in sim/src, the simulated host."
SPEC = {}
NA = {
    "C30": "A pure function of two strings and a comparator: no schedule, clock, I/O, fault, suspension or shared state for a simulator to decide, so simulated runs would be plain input sampling. (The simulations of C20 do compare match results with an independent matcher in passing.)",
    "C31": "A pure function of one expression and constant values: nothing for a scheduler or fault injector to decide; expressions that suspend for host functions are C13.",
    "C32": "Acceptance of one source text by the compiler: a pure function without time, concurrency, I/O or other parties. (That valid generated scripts compile is asserted in every simulated run; that damaged ones do not crash is C12.)",
    "C33": "Decomposition of one header's bytes: a pure function, mostly of the mail-parser dependency; no schedule or fault can influence it.",
}
m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "One simulator (sim/) runs the crate, unmodified and built from /repo's working tree, in one process under a seeded scheduler; the clock is virtual (clock_gettime is interposed in the harness). No hooks in /repo. Violations are written to replays/ as minimised decision tapes: bash run.sh replay FILE. Soundness of the simulator itself (one seed = one execution) is re-checked on every 61st run.",
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash run.sh {i} quick",
        "thorough_cmd": f"bash run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T + TECH[i],
        "level": "exploration",
        "level_note": NOTE.format("it shows the property on the runs counted in the evidence file."),
    })
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
