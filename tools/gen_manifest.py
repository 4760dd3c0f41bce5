#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
NOTE = {
 "C01": "seeded sampling of trees, orders, ownership modes and interleavings (incl. re-entrant steps) against a reference model; trees of up to a few dozen nodes",
 "C02": "as C01, with every ancestor slice compared (identity of values, writes included) at every step",
 "C03": "as C02, plus paths, depth and exposed children at every step",
 "C04": "conversion injected at every kind of moment of a traversal, including during preemption and after exhaustion, against the model's set of leaves not yet yielded",
 "C05": "as C04 with ancestors",
 "C06": "attachment attempted after every number of steps; both directions of the iff, and conservation after the refusal",
 "C07": "simulated tree sources with scripted lengths, hints and ends (also vectors, slices, arrays) against the concatenation of per-tree models",
 "C08": "random chains of up to four stages and all terminals against a reference interpreter, closure call history compared call by call",
 "C09": "as C08, every reported path compared with the position in the model's intermediate tree",
 "C10": "cancellation at every point under a drop ledger, a token ledger for containers and an allocation ledger with poisoning and quarantine",
 "C11": "panics injected at seeded crossings of every user seam (accessors, child iterators, size hints, sources, closures, value drops), ledgers checked afterwards, traversals resumed after the caught panic",
 "C12": "values written through every kind of handed-out reference, held references re-read at the end, trees compared node by node afterwards",
 "C13": "edits of the exposed children at random steps; visiting order, paths and final trees compared with an edited model",
 "C14": "unbounded lazily generated trees and sources, the exact set and order of accessor calls compared with demand",
 "C15": "trees thousands of levels deep run on threads with a small stack; stack depth measured at every seam and allocator call, crash detection in fresh processes",
 "C16": "paths recorded at random moments looked up in all three ways, also stale and corrupted paths",
 "C17": "serde_json (text), serde_json::Value and bincode streams with scripted short reads, interruptions, failures, truncation and missing fields",
 "C19": "equal seeds by two builds of the simulator (optional feature on / off, debug assertions on / off): event logs must be identical; plus a program without std (arena allocator, own panic handler) run against itself on top of std; one known finding (the feature pulls in std through serde's defaults)",
 "C20": "trees and forests of up to some thousand nodes of which few can be pending; bytes allocated by library calls and values alive compared with a bound from the model at every step (fixed factor, so a retention of some bytes per hundred nodes is not seen)",
 "C18": "clone, cloned, equality and default on random trees with injected panics in the value's own callbacks",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        technique="deterministic simulation with fault injection: seeded schedules and faults on the real library, reference model and ledgers as oracle",
        level="exploration",
        level_note=NOTE[i] + ". Sampling, not proof; trusts the simulator's reference model and that user code keeps Rust's safety rules."))
m = dict(version=1, setup_cmd="./build.sh && ./build.sh deep && ./build.sh plain", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: every seam (node traits, child iterators, tree sources, closures, value drops, allocator, byte streams) is a trait or generic parameter the library already has.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
