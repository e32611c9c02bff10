"""Introspection."""

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.introspect import KINDS, IntroSim, run as run_case
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, case, ops, swarm


def strategy(tier: str) -> Any:
    n = 20 if tier == "quick" else 50
    k = len(IntroSim.CODES)
    return case(
        hseed=HSEED,
        objs=st.lists(st.tuples(st.integers(0, len(KINDS) - 1), SMALL, SMALL, SMALL).map(list), min_size=1, max_size=3),
        bag=st.one_of(st.just(list(range(k))), swarm(k).map(lambda xs: [0, 1, 2, 3, *xs])),
        ops=ops(n, 64, 3),
    )


def run(c: Any, ctx: Ctx) -> None:
    run_case(c, ctx)
    ctx.nontrivial = {"outcomes-5+", "looks-20+"} <= ctx.labels


PROP = Prop(
    frozenset({"state", "raises", "interference"}), strategy, run, 12_000, 150_000,
    "the program had five outcomes or more and was looked at more than twenty times",
    [
        LOOP_ASSUMPTION,
        "the messages themselves can be converted to strings",
        "the operating system part of watchfiles is simulated",
    ],
)
