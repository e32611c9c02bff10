"""DESIGN.md = docs/design_head.md + the lists that follow from other files (fixes, planted bugs)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
out = [(ROOT / "docs/design_head.md").read_text().rstrip(), ""]
out += ["## Fixes", "", "Defects of the pinned commit found by these checks, each repaired by a `fix:` commit in /repo; the",
        "minimal case of each is in `corpus/`. Listed in `known_findings.txt`; there are no open findings.", "",
        "| property | commit | what failed |", "|---|---|---|"]
for line in (ROOT / "known_findings.txt").read_text().splitlines():
    if line.startswith("fixed: "):
        p, c, what = line.removeprefix("fixed: property=").split(" ", 2)
        out.append(f"| {p} | {c} | {what} |")
out += ["", "## Planted bugs and what catches them", "",
        "Each was written from the property's text and the code, builds, passes the 65 tests, and has a demonstration. The",
        "check of the property it breaks catches it (`tools/seed.sh ID` runs the whole procedure); other checks often do too.",
        "", "| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
