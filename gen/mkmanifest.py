#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties are claimed, and by which view of the crate."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
NOTE = {
    "core": "Bounded search: cases are a deterministic function of VERIF_SEED; absence of a violation is evidence, not proof. "
            "Trusts the harness's own big-integer/field/curve reference code, proptest, and the crate's third-party dependencies.",
    "full": "Bounded search, deterministic in VERIF_SEED. Runs the whole crate against /verif/manul-shim, a re-implementation of the "
            "part of the `manul` API the crate uses (manul itself is not available offline); trusts that shim, the harness, proptest "
            "and the crate's third-party dependencies.",
}
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if not c or "view" not in c:
        na.append({"property": p["id"], "reason": (c or {}).get("reason", "check still under construction")})
        continue
    cmd = "./run.sh %s %s" % (c["view"], p["id"])
    checks.append({
        "property": p["id"],
        "quick_cmd": cmd,
        "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": "exploration",
        "level_note": (c.get("note", "") + " " + NOTE[c["view"]]).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "none",
        "enable": "No hooks in /repo: gen/views.py copies /repo's sources into a crate under /verif/.work and mounts the harness there as an extra module.",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
