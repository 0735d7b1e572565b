#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(ROOT + "/tools/notes.json"))
checks, na = [], []
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(f"{ROOT}/props/{p.lower()}.py"):
        n = NOTES.get(p, {})
        checks.append({"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
                       "technique": n.get("technique", "explicit TLA+ specification model-checked with TLC; behaviours generated from it replayed against the compiled library"),
                       "level": n.get("level", "model_checking"), "level_note": n.get("note", "bounded model, sampled conformance replay")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "CEX_VERIF", "enable": "no hooks are needed: every check drives the public interface of an unmodified build of /repo"},
           "checks": checks, "not_applicable": na}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
