#!/opt/venv/bin/python
"""Write MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True

props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    m = importlib.import_module(f"checks.{pid.lower()}")
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python run.py {pid}",
            "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c 'import hyperreal, pyroaring, cherrypy, networkx'",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the checks replace sqlite3.connect, random.Random, "
    "concurrent.futures and multiprocessing.Manager before importing hyperreal.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "without")
