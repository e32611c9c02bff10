"""Hypothesis strategies shared by the checks. Everything drawn is JSON."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

SMALL = st.integers(0, 7)
HSEED = st.integers(0, 15)


def ops(max_size: int, ncodes: int, min_size: int = 0) -> st.SearchStrategy[list[list[int]]]:
    """Lists of operations [code, a, b, c]."""
    one = st.tuples(st.integers(0, ncodes - 1), SMALL, SMALL, SMALL).map(list)
    return sized_lists(one, max_size, min_size)


def sized_lists(one: Any, max_size: int, min_size: int = 0) -> st.SearchStrategy[list[Any]]:
    """Lists whose lengths really spread up to max_size (plain lists() stay around 5)."""
    return st.one_of(
        st.lists(one, min_size=min_size, max_size=max_size),
        st.lists(one, min_size=max(min_size, max_size // 4), max_size=max_size),
        st.lists(one, min_size=max(min_size, max_size // 2), max_size=max_size),
    )


def swarm(ncodes: int) -> st.SearchStrategy[list[int]]:
    """A bag of operation codes; the case's operations index into it (swarm testing)."""
    return st.lists(st.integers(0, ncodes - 1), min_size=1, max_size=10)


def case(**fields: Any) -> st.SearchStrategy[dict[str, Any]]:
    return st.fixed_dictionaries(fields)


def bags(idx: list[int], must: list[int], ncodes: int) -> st.SearchStrategy[list[int]]:
    """Bags of operation codes: the usual mix, a random part of it, or anything at all."""
    return st.one_of(
        st.just(idx),
        swarm(len(idx)).map(lambda xs: must + [idx[x] for x in xs]),
        swarm(ncodes).map(lambda xs: must + xs),
    )
