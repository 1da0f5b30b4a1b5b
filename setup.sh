#!/bin/bash
# Pure Python: nothing is compiled. Make sure that the interpreter, the code
# under test and every check module import.
cd "$(dirname "$0")" || exit 4
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys, pathlib, importlib
sys.path.insert(0, ".")
sys.path.insert(0, "/repo")
import runtimepy
for path in sorted(pathlib.Path("checks").glob("c*.py")):
    importlib.import_module(f"checks.{path.stem}")
print("ok", runtimepy.__file__)
PY
