import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES, NA
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
for p in sorted(PROPS):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py --property %s --tier quick" % p, "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p,
                        "technique": PROPS[p].get("technique", "deterministic simulation with fault injection: seeded search over thread schedules, weak-memory reads and faults on the real library"),
                        "level": "exploration", "level_note": NOTES[p]})
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
