#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and bin/props: a property with a module is claimed."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
NA = json.load(open(V + "/bin/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/bin/props/{i}.py"):
        m = importlib.import_module("props." + i)
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC, bound by trace validation of the real code"),
                       "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": getattr(m, "NOTE", (m.__doc__ or "").strip())})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
man = {"version": 1, "setup_cmd": "bash bin/setup.sh",
       "hooks": {"guard": "none", "enable": "no hooks in /repo: checks build a staged copy of /repo's sources (bin/stage.py)", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "TLA+/TLC. See DESIGN.md. known-findings.txt lists repaired defects and recorded findings."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
