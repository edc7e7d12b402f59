#!/bin/bash
# builds the harness and the program once, so that the first check does not pay for the dependencies
cd "$(dirname "$0")/.." && python3 - <<'P'
import sys; sys.path.insert(0, ".")
from ucv import run
print(run.build_harness()); print(run.build_cli())
P
