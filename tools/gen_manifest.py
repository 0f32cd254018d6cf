#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "Go build tag verif",
        "enable": "the harness is built with -tags verif, which adds gotitnet.DialHook (in-memory connections)",
        "source_commits": hook,
    },
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": CHECKS[i]["technique"],
        "level": "exploration",
        "level_note": CHECKS[i]["note"],
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in CHECKS],
    "notes": "Evidence and replays are written to evidence/; 'python3 check.py ID --replay FILE' runs a recorded case again.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(doc["checks"]), "checks,", len(doc["not_applicable"]), "not claimed")
