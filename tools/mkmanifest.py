"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
built = {}
for name in os.listdir(os.path.join(here, "vmon", "checks")):
    if name.startswith("c") and name.endswith(".py"):
        for part in name[:-3].split("_"):
            built[part.upper()] = name
TECH = {}
NOTES = {}
exec(open(os.path.join(here, "tools", "notes.py")).read()) if os.path.exists(os.path.join(here, "tools", "notes.py")) else None
DEF_T = "runtime monitoring: reference-oracle monitors over generated and hostile workloads on the real code"
DEF_N = ("Holds on every execution observed; not exhaustive beyond the spaces named in the evidence file. "
         "Trusts the independent oracle in vmon/ and the installed numpy/pandas.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": TECH.get(i, DEF_T), "level": "exploration", "level_note": NOTES.get(i, DEF_N)})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
