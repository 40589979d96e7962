#!/usr/bin/env python3
"""seedcheck.py [ids..]  applies each planted change to /repo, runs the check of its property, undoes it, and reports."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode == 0, i
    t = time.time()
    try:
        p = subprocess.run(["python3", os.path.join(HERE, "check.py"), pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
    u = [l for l in p.stdout.split("\n") if " unit " in l]
    kind = "input" if v and "no-failing" not in v[0] else ("obligation" if v else "-")
    print(f"{'CAUGHT' if p.returncode == 1 and v else 'MISSED'} {i} rc={p.returncode} by={kind} {time.time()-t:.0f}s | " + " / ".join(x[:160] for x in u), flush=True)
