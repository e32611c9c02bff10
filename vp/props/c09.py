"""The receiver protocol."""

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.proto import SPEC, ProtoSim
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, case, ops, swarm


def strategy(tier: str) -> Any:
    n = 24 if tier == "quick" else 60
    k = len(ProtoSim.CODES)
    return case(
        hseed=HSEED, spec=SPEC, shared=st.integers(0, 1),
        bag=st.one_of(st.just(list(range(k))), swarm(k).map(lambda xs: [0, 1, 2, 3, *xs])),
        ops=ops(n, 64, 3), end=SMALL,
    )


def run(c: Any, ctx: Ctx) -> None:
    ProtoSim(c, ctx).run()
    ctx.nontrivial = {"delivered-3+", "waiting"} <= ctx.labels


PROP = Prop(
    frozenset({"item", "stop", "ready", "late", "deaf"}), strategy, run, 12_000, 200_000,
    "at least three items were delivered and a read came to rest waiting",
    [
        LOOP_ASSUMPTION,
        "consume() is only called after ready() returned True",
        "a file watcher (outside of a merge) is read by one task at a time, and cancelled at rest",
        "the operating system part of watchfiles is simulated",
    ],
)
