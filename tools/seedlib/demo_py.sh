#!/bin/bash
# drives the built daemon in a scratch directory; 0 = behaves, 1 = does not
exec python3 "$(dirname "$0")/demo.py"
