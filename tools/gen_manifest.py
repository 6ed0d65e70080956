#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
import registry

NA = {
    "C32": "Relates the contents of files from several points of a history; whether the source's deltas and snapshot agree is a matter of the data it sends, which no static argument over krill-sync's source can settle.",
    "C33": "A wall-clock bound that depends on the amount of data and on the peers; no static bound is in reach (that each request has a time-out is part of C28).",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.RULES:
        r = registry.RULES[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(r, "technique", "static analysis of the MIR: path-sensitive abstract interpretation with a typestate / dataflow rule over file, network and process effects"),
            "level": "other",
            "level_note": getattr(r, "note", "Sound for the paths of the MIR under the library models listed in DESIGN.md; loops are summarised by facts which hold for every element; not a machine-checked proof of the models."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not decided by a rule yet.")})
m = {
    "version": 1,
    "setup_cmd": "cargo +nightly build --offline --release --quiet --manifest-path driver/Cargo.toml --target-dir build/driver",
    "checks": checks,
    "not_applicable": na,
    "notes": "One engine (engine/) interprets the MIR which driver/ extracts from /repo's current tree; rules/ hold one rule per property. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
