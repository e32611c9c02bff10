"""The errors."""

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.errors import ErrorSim, run as run_case
from ..engines.proto import SPEC
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, case, ops, swarm


def strategy(tier: str) -> Any:
    n = 18 if tier == "quick" else 50
    k = len(ErrorSim.CODES)
    return case(
        hseed=HSEED, specs=st.lists(SPEC, min_size=1, max_size=3),
        chans=st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), st.integers(0, 2)).map(list), max_size=2),
        empty=st.integers(0, 1),
        bag=st.one_of(st.just(list(range(k))), swarm(k).map(lambda xs: [0, 1, *xs])),
        ops=ops(n, 64, 2), end=st.integers(0, 11),
    )


def run(c: Any, ctx: Ctx) -> None:
    run_case(c, ctx)
    ctx.nontrivial = "stops-7+" in ctx.labels and bool(
        {"channel-cause", "send-failed", "select-stop", "passed-on", "select-error", "unhandled"} & ctx.labels
    )


PROP = Prop(
    frozenset({"type", "origin", "cause", "early", "item", "select", "stuck"}), strategy, run, 9_000, 120_000,
    "at least seven stops were reported, and one with a channel as its cause, or a send() failed, or select() reported "
    "a stop or an error, or an error was passed on",
    [
        LOOP_ASSUMPTION,
        "consume() of a map may name the map or the receiver below it; receive() names exactly the receiver read",
        "the operating system part of watchfiles is simulated",
    ],
)
