#!/bin/bash
# builds the harness once so that later checks only relink
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
python3 - <<'P'
import sys; sys.path.insert(0,'tools')
import check
b, err = check.build_oracle("P06", check.PROPS["P06"])
print("harness:", "ok" if b else err)
P
exit 0
