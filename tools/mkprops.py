#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
import sys; sys.path.insert(0, HERE)
from spec import SPECS as specs
KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for s in specs:
        assert len(s["title"]) <= 80, s["id"]
        f.write(json.dumps({k: s[k] for k in KEYS}, ensure_ascii=False) + "\n")
checks, na = [], []
for s in specs:
    if s.get("not_applicable"):
        na.append({"property": s["id"], "reason": s["not_applicable"]})
        continue
    c = {"property": s["id"], "quick_cmd": f"python3 tools/check.py {s['id']} --tier quick",
         "thorough_cmd": f"python3 tools/check.py {s['id']} --tier thorough",
         "evidence_file": f"evidence/{s['id']}.json",
         "technique": s.get("technique", "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run"),
         "level": s.get("level", "proof"), "level_note": s["level_note"]}
    if s.get("theorems"):
        c["theorems"] = s["theorems"]
    checks.append(c)
man = {"version": 1, "setup_cmd": "bash tools/setup.sh",
       "hooks": {"guard": "cfg(shpool_verif)",
                 "enable": "RUSTFLAGS='--cfg shpool_verif' SHPOOL_VERIF_HOOKS=<dir with one .rs file per module, assembled by tools/check.py>",
                 "source_commits": ["109795fe"]},
       "checks": checks, "not_applicable": na,
       "notes": "Each check extracts the functions named in contracts/<unit>.rs from /repo's current tree, lets Verus discharge every obligation, "
                "and cross-checks the same contract on the compiled code (bounded, never counted as proved). See DESIGN.md."}
hc = os.popen("git -C /repo log --format=%H --grep='^verif hooks' 2>/dev/null").read().split()
if hc:
    man["hooks"]["source_commits"] = hc
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
