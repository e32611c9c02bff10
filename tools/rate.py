"""How quickly does a check find a change?   tools/rate.py SRCDIR CHECK [SHARDS]

SRCDIR is a copy of /repo with the change; runs that many shards (with different seeds) of the quick tier and
prints after how many cases each of them found a violation (None: not at all).
"""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile

CODE = """
import sys, json, tempfile
import vp.run as R
R.SHRINK_S = 0.0
R.minimise = lambda *a: None
pid, i = sys.argv[1], int(sys.argv[2])
out = tempfile.mktemp()
R.run_shard(pid, "quick", 1 + i // 8, i % 8, out)
r = json.load(open(out))
print(json.dumps([r["evaluations"], bool(r["violation"]), r["violation"] and r["violation"]["message"][:100], r["error"]]))
"""


def one(i: int):
    env = dict(os.environ, VP_REPO=sys.argv[1], PYTHONPATH=f"{sys.argv[1]}/src:/verif", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-B", "-c", CODE, sys.argv[2], str(i)], env=env, capture_output=True, text=True)
    try:
        return json.loads(r.stdout.strip().split("\n")[-1])
    except Exception:
        return [0, False, None, r.stderr[-300:]]


n = int(sys.argv[3]) if len(sys.argv) > 3 else 16
with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(one, range(n)))
found = [r[0] for r in res if r[1]]
print(f"{sys.argv[2]}: {len(found)}/{n} shards found it, after {sorted(found)} cases", {r[2] for r in res if r[1]}, {r[3] for r in res if r[3]})
