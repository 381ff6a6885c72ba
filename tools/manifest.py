"""Source of /verif/MANIFEST.json (python3 tools/manifest.py): claims = contracts/cNN.py present."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "contracts", i.lower() + ".py")) and i in NOTES["claimed"]:
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": "contract-based deductive verification: postconditions over the extracted jaxpr of the real functions, discharged by normal form + z3/cvc5",
            "level": "proof", "level_note": NOTES["claimed"][i],
        })
    else:
        na.append({"property": i, "reason": NOTES["na"].get(i, "not yet under contract in this revision")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
