"""map()."""

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.mapchain import FUNCS, Run, run as run_case
from ..engines.tree import LEAVES
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, case, ops, swarm


def strategy(tier: str) -> Any:
    n = 24 if tier == "quick" else 60
    k = len(Run.CODES)
    chain = st.lists(st.integers(0, len(FUNCS) - 1), min_size=0, max_size=3 if tier == "quick" else 6)
    return case(
        hseed=HSEED, branch=st.integers(0, 3), leaf=st.integers(0, len(LEAVES) - 1),
        chains=st.lists(chain, min_size=1, max_size=3).map(lambda xs: [[0] if len(xs) == 1 and not xs[0] else xs[0], *xs[1:]]),
        bag=st.one_of(st.just(list(range(k))), swarm(k).map(lambda xs: [0, 1, 2, 3, *xs])),
        ops=ops(n, 64, 3), end=SMALL,
    )


def run(c: Any, ctx: Ctx) -> None:
    run_case(c, ctx)
    ctx.nontrivial = "mapped-2+" in ctx.labels


PROP = Prop(
    frozenset({"item", "stop", "late", "calls", "early"}), strategy, run, 11_000, 120_000,
    "at least two messages or errors came out of mapped receivers",
    [
        LOOP_ASSUMPTION,
        "consume() is only called after ready() returned True; one task reads the source at a time",
        "mapping functions raise neither StopIteration, StopAsyncIteration nor CancelledError",
        "reads are compared by the last moment of rest before they end",
    ],
)
