"""C17 and C18."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, bags, case, ops
from . import clock, timer

ALL = {"reset", "stop", "cancel", "select"}

ASSUME = [
    LOOP_ASSUMPTION,
    "the clock is virtual: times of operations are within 0.3us of whole microseconds",
    "consume() is only called after ready() returned True",
]


def wide(small: int, digits: int) -> Any:
    """Mostly one of the usual values (by index), sometimes any number of microseconds of any magnitude."""
    big = st.tuples(st.integers(1, digits), st.integers(0, 10**digits - 1)).map(lambda x: small + 1 + x[1] % 10 ** x[0])
    return st.one_of(st.integers(0, small), st.integers(0, small), big)


def make(codes: list[str], must: list[str], need: set[str], allow: set[str], tags: set[str], rule: str,
         quick: int, thorough: int, moving: int = 0) -> Prop:
    idx = [timer.TimerSim.CODES.index(c) for c in codes]
    req = [timer.TimerSim.CODES.index(c) for c in must]

    def strategy(tier: str) -> Any:
        n = 20 if tier == "quick" else 50
        return case(
            origin=SMALL, skew=st.integers(0, 2), interval=wide(7, 11), policy=st.integers(0, 3), tol=wide(5, 9),
            table=st.lists(SMALL, min_size=1, max_size=4), auto=st.sampled_from([1, 1, 0]), delay=wide(4, 9),
            bad=SMALL, hseed=HSEED, moving=st.integers(0, 5).map(lambda x: int(x > 5 - moving)),
            bag=bags(idx, req, len(timer.TimerSim.CODES)),
            ops=ops(n, 64), end=st.integers(0, 15),
        )

    def run(c: Any, ctx: Ctx) -> None:
        if c["moving"]:
            clock.ClockSim(c, ctx).run()
            ctx.nontrivial = "moving-2+" in ctx.labels
            return
        timer.TimerSim(c, ctx, frozenset(ALL)).run()
        ctx.nontrivial = any(ctx.labels >= set(alt.split("+&+")) for alt in need)

    return Prop(frozenset(tags), strategy, run, quick, thorough, rule, ASSUME)
