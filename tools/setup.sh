#!/bin/bash
# Builds what the checks use; each check builds it again if /repo has changed.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
sys.dont_write_bytecode = True
import mc
mc.harness()
mc.cli()
mc.python_module()
P
