"""C01 to C04."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, bags, case, ops
from . import anycast

ALL = {"close", "cancel"}

ASSUME = [LOOP_ASSUMPTION, "buffer limits of at least 1", "consume() is only called after ready() returned True"]


def limits(top: int) -> Any:
    """Mostly small limits, as they are reached often; sometimes larger ones."""
    return st.one_of(*[st.integers(1, top)] * 3, st.sampled_from([5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 33, 1100]))


def make(codes: list[str], need: set[str], allow: set[str], tags: set[str], rule: str,
         limits: Any, quick: int, thorough: int) -> Prop:
    idx = [anycast.AnycastSim.CODES.index(c) for c in codes]

    must = [anycast.AnycastSim.CODES.index(c) for c in ("send", "recv", *sorted(allow))]

    def strategy(tier: str) -> Any:
        n = 30 if tier == "quick" else 60
        return case(
            limit=limits, hseed=HSEED, ns=st.integers(1, 3), nr=st.integers(1, 3),
            bag=bags(idx, must, len(anycast.AnycastSim.CODES)),
            ops=ops(n, 64), end=st.integers(0, 15),
        )

    def run(c: Any, ctx: Ctx) -> None:
        anycast.run(c, ctx, frozenset(ALL))
        ctx.nontrivial = any(ctx.labels >= set(alt.split("+&+")) for alt in need)

    return Prop(frozenset(tags), strategy, run, quick, thorough, rule, ASSUME)
