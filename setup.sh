#!/bin/bash
# builds cdx and the harness once, so that later builds are incremental
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
sys.dont_write_bytecode = True
import vf
vf.build(harness=True)
P
