"""Writes MANIFEST.json from the contracts that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"P22": "scheduling of worker processes and their operating-system pipes is a property of concurrent histories; contracts over one call cannot express or decide it here",
      "P23": "the drawn figure is the state of matplotlib objects; no contract over the code of this repository decides what is drawn"}
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "contracts", "p" + i[1:] + ".py")) and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "contract-based deductive verification: contracts on the functions of the current source, obligations discharged by normalisation and z3",
                       "level": n.get("level", "proof"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contracts for it yet; not claimed")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
