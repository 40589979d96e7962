#!/usr/bin/env python3
"""replay.py PID FILE: run a recorded failing input against the code in /repo now."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

pid, f = sys.argv[1], sys.argv[2]
b, err = check.build_oracle(pid, check.PROPS[pid])
if b is None:
    print(err)
    sys.exit(2)
env = check.toolchain_env()
env["VERIF_DIR"] = check.VERIF
sys.exit(subprocess.call([b, "replay", f], env=env))
