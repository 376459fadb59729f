"""Writes MANIFEST.json.  LEVEL: property -> (level, technique, note)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.levels import LEVEL, NA
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
for p in props:
    if p in NA:
        continue
    lv, tech, note = LEVEL[p]
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lv, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py",
           "hooks": {"guard": "none: no hooks in /repo", "enable": "nothing to enable; the checks read /repo's source as it is", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
           "notes": "known_findings.txt lists the defects found and repaired. DESIGN.md describes the verifier and its trusted base."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
