#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties have a check, and how each is decided."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
claimed = open(root + "/tools/claimed").read().split()
NA = {}
TECH = "deterministic simulation with fault injection: seeded search over schedules, network behaviour, faults and workloads, real wasm of the repository on a simulated lunatic host, reference-model oracle, minimised replayable traces"
NOTE = ("Seeded exploration, not exhaustive: assurance is that no violation appears in the explored runs. Real: the repository's crates and the "
        "lunatic guest library, compiled to wasm from the working tree. Trusted: the simulated lunatic host (processes, mailboxes, TCP, clock), "
        "the generated applications and clients, the reference oracle, wasmtime.")
EXTRA = {}
m = {
    "version": 1,
    "setup_cmd": "./build.sh " + " ".join(open(root + "/tools/guests").read().split()),
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": TECH,
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(p, ""),
        }
        for p in ids if p in claimed
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in ids if p not in claimed
    ],
    "notes": "No hooks in /repo: the simulator sits at the lunatic host ABI, the seam the code already has.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
