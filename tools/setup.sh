#!/bin/bash
# builds the replayer and generates the behaviours of the quick tier
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import os, sys
sys.path.insert(0, "tools")
import lib
with lib.Lock():
    lib.build()
    lib.corpora(list(lib.MODELS), "quick", int(os.environ.get("VERIF_SEED", "1") or 1), 1400)
P
