#!/bin/bash
# Build the framework: Java accelerators for the specification, the Go driver (warms the build cache), self-check.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
import core
r = core.Run("setup")
try:
    core.build_java()
    r.driver()
    r.driver(race=True)
    r.tlc("SelfCheck")
    r.tlc("SelfCheckPki")
finally:
    r.close()
print("setup done")
P
