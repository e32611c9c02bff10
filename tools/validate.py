"""Validate properties.jsonl, MANIFEST.json and evidence/ against the task's schemas (run with python3-vt)."""
import glob
import json
import pathlib

import jsonschema

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = {n: json.load(open(f"/root/.vp/{n}.schema.json")) for n in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
bad = 0


def check(name, schema, doc):
    global bad
    for e in jsonschema.Draft202012Validator(S[schema]).iter_errors(doc):
        bad += 1
        print(name, list(e.absolute_path), e.message[:200])


lines = [json.loads(x) for x in open(ROOT / "properties.jsonl") if x.strip()]
try:
    for d in lines:
        check(d["id"], "PROPERTIES", d)
except Exception:
    check("properties", "PROPERTIES", lines)
check("MANIFEST", "MANIFEST", json.load(open(ROOT / "MANIFEST.json")))
for f in sorted(glob.glob(str(ROOT / "evidence/*.json"))):
    check(f, "EVIDENCE", json.load(open(f)))
print("bad:", bad)
raise SystemExit(bool(bad))
