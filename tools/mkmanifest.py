#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the property list."""
import json, re, subprocess
reg = open('/verif/engine/registry.go').read()
claimed = re.findall(r'\{ID: "(C\d\d)"', reg)
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/notes.py').read())
checks = []
for c in sorted(claimed):
    checks.append(dict(property=c, quick_cmd=f"tools/check.sh {c} quick", thorough_cmd=f"tools/check.sh {c} thorough",
        evidence_file=f"evidence/{c}.json", technique=TECH.get(c, TECH_SEQ), level="model_checking",
        level_note=NOTES[c] + " " + COMMON))
na = [dict(property=p, reason=NA.get(p, "the check is not built yet")) for p in props if p not in claimed]
json.dump(dict(version=1, setup_cmd="tools/build-engine.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: harnesses are overlaid from /verif/harness", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Symbolic execution of the Go SSA of /repo's current tree; see DESIGN.md."), open('/verif/MANIFEST.json','w'), indent=1)
