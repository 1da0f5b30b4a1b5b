"""Regenerate the planted-bug table of DESIGN.md from seeded/*/meta.json."""

import json
from pathlib import Path
import re

HERE = Path(__file__).resolve().parents[1]


def main():
    """Rewrite the table."""

    rows = [
        "| id | caught by | needs |",
        "| --- | --- | --- |",
    ]
    for path in sorted(HERE.glob("seeded/*/meta.json")):
        meta = json.loads(path.read_text())
        rows.append(
            f"| {path.parent.name} | {meta['property']} | "
            + " ".join(meta["needs"].split()).replace("|", "/")
            + " |"
        )
    path = HERE / "DESIGN.md"
    text = path.read_text()
    start, end = "<!-- seeds -->\n", "\n<!-- /seeds -->"
    text = text.replace("@@SEEDS@@", start + end)
    head, rest = text.split(start, 1)
    _, tail = re.split(re.escape(end), rest, maxsplit=1)
    path.write_text(head + start + "\n".join(rows) + end + tail)


if __name__ == "__main__":
    main()
