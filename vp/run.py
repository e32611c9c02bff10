"""Run the check of one property.

    python -m vp.run C01                      (tier from VERIF_TIER, seed from VERIF_SEED)
    python -m vp.run C01 --replay FILE        re-execute a recorded case, without Hypothesis
    python -m vp.run C01 --shard I --out F    (internal)

Exit status: 0 held on everything explored, 1 violation, 2 error of the check itself.
"""

from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import os
import pathlib
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
SRC = str(REPO / "src" / "frequenz" / "channels") + os.sep
EVIDENCE = pathlib.Path(os.environ.get("VP_EVIDENCE", str(VERIF / "evidence")))
SHARDS = 8
CASE_CPU_S = 20.0
SHRINK_S = 25.0
CAP_S = {"quick": 420.0, "thorough": 3300.0}


class Hang(BaseException):
    """One case used far more CPU time than any terminating case does."""


class Stop(BaseException):
    """End the Hypothesis run now."""


def _on_alarm(signum: int, frame: Any) -> None:
    raise Hang()


def load(pid: str) -> Any:
    mod = importlib.import_module(f"vp.props.{pid.lower()}")
    return mod.PROP


def check_import() -> None:
    import frequenz.channels as fc

    assert os.path.realpath(fc.__file__).startswith(os.path.realpath(SRC)), fc.__file__


def from_library(exc: BaseException) -> bool:
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def execute(prop: Any, case: Any) -> tuple[Any, dict[str, str] | None]:
    """Run one case; the second item describes the violation, if any."""
    from .core import Ctx, Violation

    ctx = Ctx(prop.tags)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        prop.run(case, ctx)
    except Violation as exc:
        return ctx, {"tag": exc.tag, "message": exc.message}
    except Hang:
        return ctx, {
            "tag": "hang",
            "message": f"no progress within {CASE_CPU_S:.0f}s of CPU time",
        }
    except Exception as exc:  # pylint: disable=broad-except
        if from_library(exc):
            where = traceback.extract_tb(exc.__traceback__)[-1]
            return ctx, {
                "tag": "unexpected",
                "message": f"unexpected {type(exc).__name__}: {exc} "
                f"({os.path.basename(where.filename)}:{where.lineno})",
            }
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx, None


def variants(node: Any) -> Any:
    """Smaller versions of a JSON document."""
    if isinstance(node, bool) or node is None:
        return
    if isinstance(node, int):
        for v in dict.fromkeys((0, 1, node // 2, node - 1)):
            if 0 <= v < node:
                yield v
    elif isinstance(node, list):
        size = len(node)
        while size:
            for i in range(0, len(node), size):
                yield node[:i] + node[i + size :]
            size //= 2
        for i, x in enumerate(node):
            for v in variants(x):
                yield node[:i] + [v] + node[i + 1 :]
    elif isinstance(node, dict):
        for k, x in node.items():
            if isinstance(x, int):
                continue  # configuration values have domains that only the strategy knows
            for v in variants(x):
                yield {**node, k: v}


def minimise(prop: Any, best: dict[str, Any]) -> None:
    """Delta-debug the smallest failing case found so far."""
    t0 = time.monotonic()
    progress = True
    while progress:
        progress = False
        for cand in variants(best["case"]):
            if time.monotonic() - t0 > SHRINK_S:
                return
            try:
                ctx, vio = execute(prop, cand)
            except Exception:  # pylint: disable=broad-except
                continue  # not a well-formed case
            if vio is not None and vio["tag"] == best["vio"]["tag"]:
                best.update(case=cand, vio=vio, trace=ctx.trace, size=len(json.dumps(cand)))
                progress = True
                break


def run_shard(pid: str, tier: str, seed: int, shard: int, out: str) -> int:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    check_import()
    prop = load(pid)
    total = prop.quick if tier == "quick" else prop.thorough
    count = max(1, (total + SHARDS - 1) // SHARDS)
    res: dict[str, Any] = {
        "shard": shard, "evaluations": 0, "labels": {}, "samples": [],
        "violation": None, "error": None, "truncated": False,
    }
    nontrivial: set[str] = set()
    best: dict[str, Any] = {}
    t0 = time.monotonic()
    cap = CAP_S[tier]
    state = {"first_fail": None, "n": 0}

    def one(case: Any) -> None:
        now = time.monotonic()
        if state["first_fail"] is not None and now - state["first_fail"] > SHRINK_S:
            raise Stop()
        if now - t0 > cap:
            res["truncated"] = True
            raise Stop()
        state["n"] += 1
        if state["n"] % 250 == 1:
            gc.collect()
            gc.freeze()  # so that collections within cases are cheap
        ctx, vio = execute(prop, case)
        if state["first_fail"] is None:
            res["evaluations"] += 1
            for name in ctx.labels:
                res["labels"][name] = res["labels"].get(name, 0) + 1
            if ctx.nontrivial:
                text = json.dumps(case)
                h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
                if h not in nontrivial:
                    nontrivial.add(h)
                    if len(res["samples"]) < 3 and len(text) < 1500:
                        res["samples"].append({"case": case, "labels": sorted(ctx.labels), "trace": ctx.trace[-30:]})
        if vio is not None:
            if state["first_fail"] is None:
                state["first_fail"] = now
            size = len(json.dumps(case))
            if not best or size <= best["size"]:
                best.update(size=size, case=case, vio=vio, trace=ctx.trace)
            if vio["tag"] == "hang":
                raise Stop()
            raise AssertionError(f"{vio['tag']}: {vio['message']}")

    test = given(prop.strategy(tier))(one)
    test = settings(
        max_examples=count, database=None, deadline=None, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
    )(test)
    num = int.from_bytes(hashlib.blake2b(f"{pid}/{seed}/{shard}".encode(), digest_size=6).digest(), "big")
    test = hypothesis.seed(num)(test)
    try:
        test()
    except Stop:
        pass
    except AssertionError:
        if not best:
            res["error"] = traceback.format_exc()
    except BaseException as exc:  # pylint: disable=broad-except
        if not best:
            res["error"] = traceback.format_exc()
        else:
            res["note"] = texc = f"{type(exc).__name__}: {exc}"[:300]
    if best and best["vio"]["tag"] != "hang":
        minimise(prop, best)
    if best:
        res["violation"] = {"case": best["case"], **best["vio"], "trace": best["trace"]}
    res["nontrivial"] = sorted(nontrivial)
    res["wall_s"] = time.monotonic() - t0
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)
    return 0


def replay(pid: str, path: str) -> int:
    check_import()
    data = json.loads(pathlib.Path(path).read_text(encoding="utf-8"))
    ctx, vio = execute(load(pid), data["case"])
    print(json.dumps(data["case"]))
    for line in ctx.trace:
        print("   ", line)
    if vio is None:
        print("the case passes", sorted(ctx.labels))
        return 0
    print(f"fails: [{vio['tag']}] {vio['message']}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def dump_case(data: dict[str, Any]) -> str:
    """One top-level item per line."""
    return "{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in data.items()) + "\n}\n"


def child_env() -> dict[str, str]:
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=f"{REPO}/src{os.pathsep}{VERIF}")
    env.pop("PYTHONASYNCIODEBUG", None)
    return env


def confirm(pid: str, path: str) -> bool:
    """Does the recorded case still fail in a fresh process?"""
    r = subprocess.run(
        [sys.executable, "-B", "-m", "vp.run", pid, "--replay", path],
        env=child_env(), cwd=VERIF, capture_output=True, text=True, check=False,
    )
    return r.returncode == 1


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = ap.parse_args()
    pid = args.property.upper()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = "thorough" if args.tier == "thorough" else "quick"
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONPATH") != child_env()["PYTHONPATH"]:
        os.execve(sys.executable, [sys.executable, "-B", "-m", "vp.run", *sys.argv[1:]], child_env())
    if args.replay:
        return replay(pid, args.replay)
    if args.shard is not None:
        return run_shard(pid, tier, seed, args.shard, args.out)

    t0 = time.monotonic()
    check_import()
    prop = load(pid)
    replay_dir = EVIDENCE / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for name in (f"{pid}.json", f"{pid}.unconfirmed.json"):
        (replay_dir / name).unlink(missing_ok=True)
    violation: dict[str, Any] | None = None
    replay_path: pathlib.Path | None = None

    # 1. the saved regression cases, without Hypothesis
    corpus = sorted((VERIF / "corpus" / pid).glob("*.json"))
    for path in corpus:
        if confirm(pid, str(path)):
            violation = {"message": f"saved case {path.name} fails"}
            replay_path = path
            break

    # 2. generated cases
    shards: list[dict[str, Any]] = []
    errors: list[str] = []
    if violation is None:
        with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
            procs = []
            for i in range(SHARDS):
                out = os.path.join(tmp, f"{i}.json")
                procs.append((out, subprocess.Popen(
                    [sys.executable, "-B", "-m", "vp.run", pid, "--shard", str(i), "--out", out, "--tier", tier],
                    env=child_env(), cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            for out, p in procs:
                _, err = p.communicate()
                if os.path.exists(out):
                    with open(out, encoding="utf-8") as f:
                        shards.append(json.load(f))
                else:
                    errors.append(f"shard died ({p.returncode}): {err[-2000:]}")
        for s in shards:
            if s["error"]:
                errors.append(s["error"])
            v = s["violation"]
            if v is None or violation is not None:
                continue
            path = replay_dir / f"{pid}.json"
            path.write_text(dump_case({"property": pid, "seed": seed, "shard": s["shard"], **v}), encoding="utf-8")
            if any(confirm(pid, str(path)) for _ in range(3)):
                violation, replay_path = v, path
            else:
                path.rename(replay_dir / f"{pid}.unconfirmed.json")
                errors.append(f"a failure did not reproduce: {v['tag']}: {v['message']} {v['case']}")

    labels: dict[str, int] = {}
    distinct: set[str] = set()
    for s in shards:
        for k, n in s["labels"].items():
            labels[k] = labels.get(k, 0) + n
        distinct.update(s["nontrivial"])
    samples = [x for s in shards for x in s["samples"][:1]][:4]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in shards) + len(corpus),
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": samples,
            "saved_cases_replayed": len(corpus),
            "classes": dict(sorted(labels.items())),
            "truncated_by_time": any(s["truncated"] for s in shards),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 0 if violation is None else 1,
    }
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(evidence, indent=1), encoding="utf-8")
    if violation is not None:
        print(violation["message"])
        print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR:", e, file=sys.stderr)
        return 2
    print(f"{pid}: {evidence['coverage']['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{evidence['wall_s']}s: held")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(2)
