"""Pipelines."""

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.pipeline import STAGE, PipeSim, run as run_case
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, case, ops, sized_lists, swarm


def strategy(tier: str) -> Any:
    n = 16 if tier == "quick" else 40
    k = len(PipeSim.CODES)
    return case(
        hseed=HSEED,
        inputs=st.lists(
            st.tuples(st.integers(0, 1), st.integers(0, 3), st.integers(1, 8 if tier == "quick" else 20)).map(list),
            min_size=1, max_size=3),
        stages=sized_lists(STAGE, 4 if tier == "quick" else 7, 1),
        sinks=st.integers(0, 63), style=st.integers(0, 5), hurry=st.integers(0, 31), early=st.integers(0, 7),
        bag=st.one_of(st.just(list(range(k))), swarm(k).map(lambda xs: [0, 1, 2, 3, *xs])),
        ops=ops(n, 64, 3),
    )


def run(c: Any, ctx: Ctx) -> None:
    run_case(c, ctx)
    ctx.nontrivial = "delivered-4+" in ctx.labels and "depth-1" not in ctx.labels and "depth-0" not in ctx.labels


PROP = Prop(
    frozenset({"flow", "end", "leak", "stuck"}), strategy, run, 6_000, 80_000,
    "at least four messages came out, and some path has two stages or more",
    [
        LOOP_ASSUMPTION,
        "forwarding tasks are cancelled (and restarted) only while they read, not while they send",
        "buffers of broadcast receivers are just as large as the traffic on their channel",
    ],
)
