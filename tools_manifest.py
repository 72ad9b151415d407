"""Regenerates MANIFEST.json from checks/meta.json and properties.jsonl."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
meta = json.load(open(os.path.join(here, "checks", "meta.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = json.load(open(os.path.join(here, "checks", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta:
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python run.py check %s" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: " + meta[i].get("technique", "seeded histories against a reference model"),
            "level": "exploration",
            "level_note": meta[i].get("note", "Seeded search: no violation in the runs explored. Trusts the reference model in /verif/checks and the seams in /verif/sim."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python run.py setup",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the random module, locks, label hashes, files and thread scheduling are replaced from outside the library before it is imported."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
