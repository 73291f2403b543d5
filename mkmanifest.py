#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
NA = {
 "C15": "A compile-time fact about which items exist per target; there is no execution, schedule, clock or fault for a simulator to control.",
 "C16": "Auto traits, const-evaluability and Debug formatting are compile-time or single-call facts without concurrency, time, I/O or faults.",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE = ("Seeded search over interleavings, store-buffer behaviour and faults of the compiled machine code; a clean batch is "
        "evidence, not proof. Trusts rustc/LLVM's output as given, llvm-objdump, the instruction lifter and the multi-copy-atomic "
        "machine model of the simulator; covers the targets and feature sets listed in the evidence file.")
m = {"version": 1, "setup_cmd": "sh setup.sh",
 "checks": [{"property": i, "quick_cmd": f"sh check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough sh check.sh {i}",
   "technique": "deterministic simulation with fault injection of the compiled code", "level": "exploration", "level_note": NOTE}
   for i in ids if i not in NA],
 "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
