"""Lost and delayed messages are reported."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.logs import LogSim
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, bags, case, ops


def strategy(tier: str) -> Any:
    n = 24 if tier == "quick" else 60
    k = len(LogSim.CODES)
    return case(
        hseed=HSEED, where=st.integers(0, 2), start=st.integers(0, 3),
        chans=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=3),
        bag=bags(list(range(k)), [0, 1, 4], k), ops=ops(n, 64, 2),
    )


def run(c: Any, ctx: Ctx) -> None:
    LogSim(dict(c, chans=c["chans"] or [[0, 0]]), ctx).run()
    ctx.nontrivial = bool({"lost", "announced"} & ctx.labels)


PROP = Prop(
    frozenset({"log"}), strategy, run, 14_000, 200_000,
    "a receiver lost a message or a sender had to wait, so that there was something to report",
    [LOOP_ASSUMPTION, "the standard logging module is configured by the application through its logger hierarchy"],
)
