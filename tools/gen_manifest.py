"""Write MANIFEST.json: one check per property that has a module in vp/props."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent

TECHNIQUE = {
    "anycast": "model-based property testing of generated schedules (Hypothesis, virtual event loop, reference model)",
    "default": "property-based testing: generated operation sequences and schedules against a reference model "
    "(Hypothesis, deterministic virtual-time event loop, shrinking to a replay file)",
}
NOTE = {
    "default": "Generated-input search, not a proof: some 10-30 thousand cases per quick run (10 to 20 times as many in "
    "the thorough tier, with longer programs). Trusts CPython's asyncio, Hypothesis and the reference model.",
    "C19": "As the others; the operating system part of watchfiles (inotify, its thread) is simulated, awatch() itself runs.",
    "C20": "As the others; the operating system part of watchfiles (inotify, its thread) is simulated, awatch() itself runs.",
}
PY = "/opt/venv/bin/python -B -m vp.run"


def main() -> None:
    checks, missing = [], []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        pid = json.loads(line)["id"]
        if not (ROOT / "vp" / "props" / f"{pid.lower()}.py").exists():
            missing.append({"property": pid, "reason": "no check has been built for it yet"})
            continue
        note = NOTE["default"] if pid not in NOTE else NOTE["default"] + " " + NOTE[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"{PY} {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough {PY} {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECHNIQUE["default"],
            "level": "exploration",
            "level_note": note,
        })
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import hypothesis, watchfiles, anyio, frequenz.channels'",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo: all checks use the public API on a virtual event loop. known_findings.txt lists the "
        "defects that were found and repaired.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")


if __name__ == "__main__":
    main()
