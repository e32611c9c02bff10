"""C11 to C15."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, case, ops, swarm
from . import mux

ASSUME = [
    LOOP_ASSUMPTION,
    "sources follow the receiver protocol: ready() of a ready receiver returns at once until it is consumed",
    "a source is read by one loop or merge at a time",
]


def make(mode: Any, codes: list[str], must: list[str], need: set[str], kinds: tuple[str, ...],
         exits: tuple[str, ...], acts: list[str], tags: set[str], rule: str, quick: int, thorough: int,
         max_feed: int = 60, nsrc: tuple[int, int] = (1, 4)) -> Prop:
    sim = mux.MuxSim
    idx = [sim.CODES.index(c) for c in codes]
    req = [sim.CODES.index(c) for c in must]
    aidx = [sim.ACTS.index(c) for c in acts]

    def strategy(tier: str) -> Any:
        n = 30 if tier == "quick" else 70
        return case(
            mode=mode, hseed=HSEED, kinds=st.one_of(
                *[st.lists(SMALL, min_size=nsrc[0], max_size=nsrc[1])] * 5,
                st.lists(SMALL, min_size=nsrc[1] + 1, max_size=12),
            ),
            acts=st.lists(st.sampled_from(aidx), min_size=1, max_size=5),
            confs=st.lists(st.lists(SMALL, min_size=16, max_size=16), min_size=1, max_size=3),
            bag=st.one_of(st.just(idx), swarm(len(idx)).map(lambda xs: req + [idx[x] for x in xs])),
            early=st.sampled_from([1, 1, 1, 0]), ops=ops(n, 64, 3), end=SMALL,
        )

    def run(c: Any, ctx: Ctx) -> None:
        c = dict(c, kinds=c["kinds"] or [0], acts=c["acts"] or [0],
                 confs=[(x + [0] * 16)[:16] for x in c["confs"]] or [[0] * 16])
        sim(c, ctx, kinds, exits, max_feed).run()
        ctx.nontrivial = any(ctx.labels >= set(alt.split("+&+")) for alt in need)

    return Prop(frozenset(tags), strategy, run, quick, thorough, rule, ASSUME)
