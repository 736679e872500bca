#!/opt/venv/bin/python
"""fixed.py PROPERTY COMMIT-SUBJECT-PREFIX WHAT: record a repair in known_findings.json"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, subject, what = sys.argv[1:]
log = subprocess.run(["git", "-C", "/repo", "log", "--oneline"], capture_output=True, text=True).stdout.splitlines()
[commit] = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subject)]
path = os.path.join(here, "known_findings.json")
d = json.load(open(path))
d["fixed"].append(f"fixed: property={prop} {commit} {what}")
with open(path, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
