#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property tables."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
DOMAINS = [("gov", "gov_props"), ("fund", "fund_props"), ("stake", "stake_props"), ("oracle", "oracle_props"), ("fee", "fee_props")]
NOT_APPLICABLE = []
props, checks = [], []
for dom, mod in DOMAINS:
    m = __import__(mod)
    for p in m.PROPS:
        props.append(p)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {dom} {p['id']} quick",
            "thorough_cmd": f"./check.sh {dom} {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults, checked against a reference model",
            "level": "exploration",
            "level_note": getattr(m, "NOTES", {}).get(p["id"], getattr(m, "NOTE", "")),
        })
na = []
try:
    import na_props
    for p, reason in na_props.PROPS:
        props.append(p)
        na.append({"property": p["id"], "reason": reason})
except ImportError:
    pass
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hook is needed: the pallets' Config traits are the seams", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "known-findings.txt lists the genuine defects; DESIGN.md explains the simulators; a replay file is run with ./check.sh replay FILE",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids))
print(len(checks), "checks,", len(na), "not applicable")
