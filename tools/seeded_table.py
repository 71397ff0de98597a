"""Table of planted bugs for DESIGN.md (stdout): id, property, what it needs, first missed or not."""
import json, pathlib, sys

root = pathlib.Path(__file__).resolve().parent.parent
missed = dict(line.split(None, 1) for line in (root / "tools/missed.txt").read_text().splitlines() if line.strip())
print("| planted bug | caught by | needs | first missed? what was added |\n|---|---|---|---|")
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs']} | {missed.get(d.name, '').strip()} |")
