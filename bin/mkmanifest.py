#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from jobs import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Bounded model checking: the TLA+ machine enumerates (exhaustively or at random, seeded) behaviours whose exact "
        "outcomes it computes from the mathematical definitions in integer/rational/radical arithmetic, and every behaviour "
        "is replayed on the code. Trusted: TLC, the replay harness, the tolerance rule (1e-9 f64, 1e-4 f32 relative to the "
        "largest component, widened only where DESIGN.md says). ")
out = {"version": 1, "setup_cmd": "sh bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        mods = sorted({j["mod"] for j in CHECKS[i]["jobs"]} | {j["validate"]["mod"] for j in CHECKS[i]["jobs"] if "validate" in j})
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification (%s) explored by TLC, behaviours replayed on the Rust code%s" % (
                ", ".join(mods), ", recorded traces validated by TLC" if any("validate" in j for j in CHECKS[i]["jobs"]) else ""),
            "level": "model_checking",
            "level_note": NOTE + CHECKS[i].get("note", ""),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": "no machine built for it yet"})
out["notes"] = "No hooks in /repo are needed: everything is observed through the public API. See DESIGN.md."
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed")
