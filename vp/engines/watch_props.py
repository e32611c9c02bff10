"""C19 and C20."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from ..core import Ctx
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, bags, case, ops
from . import watch

ASSUME = [
    LOOP_ASSUMPTION,
    "watchfiles.awatch() is real, its operating system notifier and thread are simulated",
    "one task reads a watcher at a time; changes happen while the watch is active; reads are cancelled at rest",
]


def make(codes: list[str], must: list[str], need: set[str], tags: set[str], rule: str,
         quick: int, thorough: int) -> Prop:
    sim = watch.WatchSim
    idx = [sim.CODES.index(c) for c in codes]
    req = [sim.CODES.index(c) for c in must]

    def strategy(tier: str) -> Any:
        n = 24 if tier == "quick" else 60
        conf = st.tuples(st.integers(0, 8), SMALL, SMALL, SMALL).map(list)
        return case(
            hseed=HSEED, confs=st.lists(conf, min_size=1, max_size=2),
            bag=bags(idx, req, len(sim.CODES)),
            ops=ops(n, 64, 3), end=SMALL,
        )

    def run(c: Any, ctx: Ctx) -> None:
        sim(dict(c, confs=[(x + [0] * 4)[:4] for x in c["confs"]] or [[0] * 4]), ctx).run()
        ctx.nontrivial = any(ctx.labels >= set(alt.split("+&+")) for alt in need)

    return Prop(frozenset(tags), strategy, run, quick, thorough, rule, ASSUME)
