"Writes MANIFEST.json: a check for every property that has a harness, the others under not_applicable."
import json, os, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
p = os.path.join(HERE, "tools", "level_notes.json")
if os.path.exists(p):
    NOTES = json.load(open(p))
NA = {}
p = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    if i not in NA and os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real source with Z3 deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES.get(i, "Bounded: see the obligations and bounds in the evidence and DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print(z3.get_version_string())'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks instrument a copy of the source in memory."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
