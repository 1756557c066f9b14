#!/bin/bash
# Builds the MIR facts driver (each check builds it itself if it is missing).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "engine")
import run
import os
os.makedirs(run.BUILD, exist_ok=True)
print(run.driver())
P
