#!/usr/bin/env python3
"""Run one property's bounded search alone (development aid): orc.py PID [seconds] [tier]"""
import sys, json
sys.path.insert(0, __import__("os").path.dirname(__file__))
import check, props
pid = sys.argv[1]
cfg = dict(props.PROPS[pid])
if len(sys.argv) > 2: cfg["oracle_secs"] = (int(sys.argv[2]),) * 2
out = {}
check.run_oracle(pid, cfg, sys.argv[3] if len(sys.argv) > 3 else "quick", 1, out)
print(json.dumps(out, indent=1)[:3000])
