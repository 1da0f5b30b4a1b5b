"""
Make and confirm a planted bug.

Used from throw-away scripts:

    from seed import seed
    seed("id", "C01", [("primitives/x.py", old, new)], demo, needs, breaks)

Everything happens in a scratch copy of /repo; the result is written to
/verif/seeded/<id>/ when the patch keeps the stable tests passing and the
demonstration tells both trees apart. It also reports whether the property's
quick check catches it.
"""

import json
import os
from pathlib import Path
import shutil
import subprocess
import sys
import tempfile

VERIF = Path(__file__).resolve().parents[1]
BASE = "e5105fb"
STABLE = Path("/opt/vp/BASELINE.json")

DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
timeout -k 5 200 /opt/venv/bin/python "$here/demo.py"
"""


def run(*cmd, **kwargs):
    return subprocess.run(
        cmd, capture_output=True, text=True, check=False, **kwargs
    )


def seed(ident, prop, edits, demo, needs, breaks, tests=True, checks=None):
    """Create a planted bug."""

    work = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    tree = work / "repo"
    out = VERIF / "seeded" / ident
    try:
        run("cp", "-a", "/repo", str(tree))
        run("git", "checkout", "-q", "--", ".", cwd=tree)
        for path, old, new in edits:
            path = tree / "runtimepy" / path
            text = path.read_text()
            assert text.count(old) == 1, (ident, path, text.count(old))
            path.write_text(text.replace(old, new))
        diff = run("git", "diff", cwd=tree).stdout
        assert diff
        for path, _, _ in edits:
            base = run(
                "git", "show", f"{BASE}:runtimepy/{path}", cwd=tree
            ).stdout.split("\n")
            for line in run(
                "git", "diff", "--", f"runtimepy/{path}", cwd=tree
            ).stdout.split("\n"):
                if line.startswith("-") and not line.startswith("---"):
                    assert line[1:] in base, (ident, "not original", line)

        scratch = work / "demo"
        scratch.mkdir()
        (scratch / "demo.py").write_text(demo.lstrip("\n"))
        (scratch / "demo.sh").write_text(DEMO)

        good = run("bash", str(scratch / "demo.sh"), cwd="/repo")
        bad = run("bash", str(scratch / "demo.sh"), cwd=tree)
        print(f"[{ident}] demo unchanged={good.returncode} "
              f"patched={bad.returncode}")
        if good.returncode or not bad.returncode:
            print(good.stdout[-800:], good.stderr[-1500:])
            print(bad.stdout[-800:], bad.stderr[-800:])
            return False
        print("   ", (bad.stderr or bad.stdout).strip().split("\n")[-1][:200])

        if tests:
            script = work / "test.sh"
            script.write_text(
                Path("/opt/vp/test.sh").read_text().replace(
                    "cd /repo", f"cd {tree}"
                )
            )
            env = dict(os.environ, PYTHONPATH=str(tree))
            res = work / "out.json"
            run("bash", str(script), str(res), env=env)
            data = json.loads(res.read_text())
            stable = json.loads(STABLE.read_text())
            failed = broken(data, stable)
            print(f"[{ident}] stable tests failing: {failed}")
            if failed:
                return False

        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        (out / "patch.diff").write_text(diff)
        shutil.copy(scratch / "demo.py", out)
        shutil.copy(scratch / "demo.sh", out)
        (out / "meta.json").write_text(
            json.dumps(
                {"property": prop, "needs": needs, "what_it_breaks": breaks},
                indent=1,
            )
            + "\n"
        )
        for item in checks or [prop]:
            env = dict(os.environ, VERIF_REPO=str(tree), VERIF_SEED="1")
            res = run(str(VERIF / "run.sh"), item, env=env)
            lines = [
                x for x in res.stdout.split("\n") if x.startswith("VIOLATION")
            ]
            print(f"[{ident}] {item} exit={res.returncode} "
                  f"{'CAUGHT' if res.returncode == 1 and lines else 'MISSED'}"
                  f" {lines[:2]}")
            detail = [
                x for x in (res.stdout + res.stderr).split("\n")
                if x.startswith("#")
            ]
            print("    ", *[x[:200] for x in detail[:2]], sep="\n    ")
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)
        sys.stdout.flush()


def broken(data, stable):
    """Stable tests that don't pass."""

    def names(item, key):
        value = item.get(key, [])
        return set(value if not isinstance(value, dict) else value)

    want = names(stable, "stable") or names(stable, "passed")
    want = want or names(stable, "tests")
    assert want, list(stable)
    got = names(data, "passed") or names(data, "pass")
    assert got, list(data)
    return sorted(want - got)


def evaluate(ident, checks=None):
    """Run checks against an existing planted bug."""

    meta = json.loads((VERIF / "seeded" / ident / "meta.json").read_text())
    work = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    tree = work / "repo"
    try:
        run("cp", "-a", "/repo", str(tree))
        res = run(
            "git", "apply", str(VERIF / "seeded" / ident / "patch.diff"),
            cwd=tree,
        )
        if res.returncode:
            print(f"[{ident}] DOES NOT APPLY {res.stderr}")
            return
        demo = VERIF / "seeded" / ident / "demo.sh"
        good = run("bash", str(demo), cwd="/repo").returncode
        bad = run("bash", str(demo), cwd=tree).returncode
        for item in checks or [meta["property"]]:
            env = dict(os.environ, VERIF_REPO=str(tree), VERIF_SEED="1")
            res = run(str(VERIF / "run.sh"), item, env=env)
            print(f"[{ident}] demo {good}/{bad} {item} exit={res.returncode}")
    finally:
        shutil.rmtree(work, ignore_errors=True)
        sys.stdout.flush()


if __name__ == "__main__":
    idents = sys.argv[1:] or sorted(
        x.name for x in (VERIF / "seeded").iterdir()
    )
    for name in idents:
        evaluate(name)
