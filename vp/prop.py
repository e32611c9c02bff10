"""The interface between the runner and the checks."""

from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable


@dataclass
class Prop:
    """One check."""

    tags: frozenset[str] | None
    """The kinds of violations that count against the property (None: all)."""
    strategy: Callable[[str], Any]
    run: Callable[[Any, Any], None]
    quick: int
    thorough: int
    rule: str
    assumptions: list[str] = field(default_factory=list)


LOOP_ASSUMPTION = (
    "asyncio semantics of CPython 3.12: the virtual loop reuses BaseEventLoop and its "
    "ready queue, only the clock and the selector are replaced"
)
