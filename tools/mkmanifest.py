"""Writes MANIFEST.json from the modules present in dst/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIDS = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
PURE = "pure function of its input (one rule, its children and a size): no schedule, clock, randomness, I/O, fault or call history can change the answer, so a simulator has nothing to decide; input-generation or proof techniques fit, this family does not"
NA = {
    "C09": "Term computation of a single rule form given its children's terms: " + PURE,
    "C10": "Sizes a single rule form asks of its children given a size: " + PURE,
    "C20": "Equations and closed forms of a finished specification: " + PURE,
}
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks = []
na = [{"property": p, "reason": r} for p, r in NA.items()]
for p in PIDS:
    if p in NA:
        continue
    if not os.path.exists(os.path.join(V, "dst", "props", p.lower() + ".py")):
        na.append({"property": p, "reason": "not claimed yet: machinery under construction"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, clock scripts, random answers and faults of the real library, against an executable reference model",
        "level": "exploration",
        "level_note": NOTES[p],
    })
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
