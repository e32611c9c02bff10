"""Event: a one-slot latch."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..engines.event import EventSim
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, case, ops, swarm


def strategy(tier: str) -> Any:
    n = 25 if tier == "quick" else 60
    idx = list(range(len(EventSim.CODES)))
    return case(
        hseed=HSEED, named=st.integers(0, 1),
        bag=st.one_of(st.just(idx), swarm(len(idx)).map(lambda xs: [0, 1] + xs)),
        ops=ops(n, 64), end=st.integers(0, 15),
    )


def run(c: Any, ctx: Ctx) -> None:
    EventSim(c, ctx).run()


PROP = Prop(
    None, strategy, run, 30_000, 600_000,
    "the event was delivered at least once, and at some point a read was blocked or cancelled, several "
    "set() were coalesced or it was stopped while set",
    [LOOP_ASSUMPTION, "set() is not called after stop()"],
)
