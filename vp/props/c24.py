from typing import Any

from hypothesis import strategies as st

from ..engines.retain import EXPR, KINDS, ROUNDS, RetainSim, run
from ..prop import LOOP_ASSUMPTION, Prop
from ..strat import HSEED, SMALL, bags, case, ops


def strategy(tier: str) -> Any:
    n = 24 if tier == "quick" else 60
    k = len(RetainSim.CODES)
    return case(
        hseed=HSEED, mode=st.sampled_from([0, 0, 0, 1]),
        chans=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)).map(list), min_size=1, max_size=3),
        exprs=st.lists(EXPR, min_size=1, max_size=3),
        bag=bags(list(range(k)), [0, 1, 2], k),
        ops=ops(n, 64, 3), end=SMALL,
        growth=case(
            kind=st.integers(0, len(KINDS) - 1), limit=st.integers(0, 3), times=st.integers(6, 10), after=st.sampled_from([0, 0, 1]),
            rounds=st.lists(st.tuples(st.integers(0, len(ROUNDS) - 1), st.integers(0, 5)).map(list), min_size=1, max_size=3),
        ),
    )


PROP = Prop(
    frozenset({"held", "tasks", "growth"}), strategy, run, 6_000, 80_000,
    "the library held as many messages as it may, or more than three messages were read and nothing was left to read, or an "
    "object went through rounds of use that leave it as it was",
    [
        LOOP_ASSUMPTION,
        "the running select loop may keep the last item it yielded, a broadcast channel its latest message",
        "the operating system part of watchfiles is simulated",
    ],
)
