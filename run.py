"""Entry point: run.py <property> [--replay FILE] [--kind K --index N]."""

import argparse
import importlib
import json
import os
from pathlib import Path
import sys

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))

# The code under test is always the working tree.
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, str(REPO))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--kind")
    parser.add_argument("--index", type=int)
    args = parser.parse_args()

    from lib import core

    import runtimepy

    if not str(Path(runtimepy.__file__).resolve()).startswith(
        str(REPO.resolve()) + os.sep
    ):
        print(f"# wrong runtimepy: {runtimepy.__file__}", file=sys.stderr)
        return 4

    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        tier, seed = data["tier"], data["seed"]
        only = data["kind"], data["index"]
    elif args.kind:
        only = args.kind, args.index or 0

    core.limit_memory()
    core.arm_watchdog(float(os.environ.get("VERIF_WATCHDOG", "860")))
    try:
        module = importlib.import_module(f"checks.{args.property.lower()}")
    except Exception:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        return 4
    check = core.Check(module, tier, seed)
    if getattr(module, "CAPTURE_LOGS", False):
        check.logs = core.CaptureLogs()
    with core.quiet_logging(capture=getattr(check, "logs", None)):
        code = check.run(only)
    return code


if __name__ == "__main__":
    CODE = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(CODE)
