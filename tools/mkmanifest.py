"""Writes MANIFEST.json; CLAIMED lists the properties with a check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FID = ("Quint specification of the model (fixed point, 50 digits) executed as a trace monitor over recorded calls; "
       "inputs are behaviours of the session state machine")
LAW = ("Quint session state machine generates call histories, replayed into the library; a Quint monitor checks every step "
       "of the recorded history against the machine and its laws")
T = json.load(open(os.path.join(ROOT, "tools", "claims.json")))
PY = "/opt/venv/bin/python"
checks = []
for p, (tech, level, note) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": f"{PY} harness/check.py {p} --tier quick",
                   "thorough_cmd": f"{PY} harness/check.py {p} --tier thorough",
                   "technique": {"FID": FID, "LAW": LAW}.get(tech, tech), "level": level, "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": i, "reason": "no check yet (work in progress)"} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": f"{PY} harness/setup.py",
           "hooks": {"guard": "RIPPLE_VERIF", "enable": "no hooks: the public functions are observed from outside"},
           "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
