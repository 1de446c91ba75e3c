"""Regenerates MANIFEST.json from run.py's tables and properties.jsonl (run by hand when they change)."""
import json
import run

NOTE = {
    "cpp": "Random exploration, no proof. Trusts the independent reference evaluator and the move models in cpp/; compiled "
           "from the working tree with AddressSanitizer, so that invalid accesses are failures too.",
    "py": "Random exploration, no proof. Trusts NumPy and the reference models in py/; drives the Python package built "
          "from the working tree.",
}
TECH = {
    "cpp": "property-based testing: choice-sequence generated graphs and histories against a reference model, shrunk to a replay",
    "py": "property-based testing: generated models and call histories against a NumPy/reference model, shrunk to a replay",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in run.CAMPAIGNS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    eng = [c[0] for c in run.CAMPAIGNS[i]]
    e = eng[0]
    checks.append({
        "property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECH[e], "level": "exploration",
        "level_note": " ".join(NOTE[x] for x in dict.fromkeys(eng)),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the checks use the public C++ and Python interfaces."},
          open("MANIFEST.json", "w"), indent=1)
