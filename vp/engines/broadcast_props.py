"""C05 to C08."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, bags, case, ops
from . import broadcast

ALL = {"close", "cancel", "drop", "toggle"}

ASSUME = [LOOP_ASSUMPTION, "receiver limits of at least 1", "consume() is only called after ready() returned True"]


def make(codes: list[str], must: list[str], need: set[str], allow: set[str], tags: set[str], rule: str,
         resend: Any, quick: int, thorough: int, least: int = 0) -> Prop:
    idx = [broadcast.BroadcastSim.CODES.index(c) for c in codes]
    req = [broadcast.BroadcastSim.CODES.index(c) for c in must]

    def strategy(tier: str) -> Any:
        n = 30 if tier == "quick" else 60
        return case(
            resend=resend, hseed=HSEED, limits=st.lists(st.one_of(SMALL, SMALL, SMALL, st.integers(8, 64)), max_size=3),
            bag=bags(idx, req, len(broadcast.BroadcastSim.CODES)),
            ops=ops(n, 64, least), end=st.integers(0, 15),
        )

    def run(c: Any, ctx: Ctx) -> None:
        broadcast.run(c, ctx, frozenset(ALL))
        ctx.nontrivial = any(ctx.labels >= set(alt.split("+&+")) for alt in need)

    return Prop(frozenset(tags), strategy, run, quick, thorough, rule, ASSUME)
