"""Common parts of all checks: contexts, violations, message values, simulation base."""

from __future__ import annotations

import asyncio
import gc
import logging
import warnings
from typing import Any, Callable

from .loop import Livelock, VLoop, VTask

logging.disable(logging.CRITICAL)
logging.lastResort = None
warnings.simplefilter("ignore")


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, tag: str, message: str) -> None:
        super().__init__(f"[{tag}] {message}")
        self.tag = tag
        self.message = message


ALWAYS = frozenset({"unexpected", "livelock"})
"""Whatever the property: no undocumented exceptions out of legal uses and no livelocks."""


class Ctx:
    """What one case reports back."""

    def __init__(self, tags: frozenset[str] | None = None) -> None:
        self.tags = tags
        self.labels: set[str] = set()
        self.nontrivial = False
        self.trace: list[str] = []

    def fail(self, tag: str, message: str) -> None:
        """Raise a violation if the property being checked covers this tag."""
        if self.tags is None or tag in self.tags or tag in ALWAYS:
            raise Violation(tag, message)

    def check(self, cond: bool, tag: str, message: Callable[[], str] | str) -> None:
        if not cond:
            self.fail(tag, message if isinstance(message, str) else message())

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def log(self, text: str) -> None:
        self.trace.append(text)


class Hostile:
    """A message that is falsy, empty and equal to everything."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, n: int) -> None:
        self.n = n

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def __eq__(self, other: object) -> bool:
        return True

    def __ne__(self, other: object) -> bool:
        return False

    def __hash__(self) -> int:
        return 0

    def __repr__(self) -> str:
        return f"Hostile({self.n})"


class FalsyError(Exception):
    """An error that is falsy and equal to every other one."""

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Exception)

    def __hash__(self) -> int:
        return 0


class Plain:
    """An ordinary unique message."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, n: int) -> None:
        self.n = n

    def __repr__(self) -> str:
        return f"M{self.n}"


N_KINDS = 8


def make_msg(kind: int, n: int) -> Any:
    """Make a message; only kinds 0, 1, 4, 6, 7 are unique objects."""
    kind %= N_KINDS
    if kind == 1:
        return Hostile(n)
    if kind == 2:
        return None
    if kind == 3:
        return 0
    if kind == 4:
        return ValueError(n)
    if kind == 5:
        return ""
    if kind == 6:
        return [n]
    if kind == 7:
        return StopAsyncIteration(n)
    return Plain(n)


def is_unique(msg: Any) -> bool:
    return not (msg is None or (type(msg) is int) or (type(msg) is str))


class Sim:
    """A case being executed on a virtual loop."""

    def __init__(self, ctx: Ctx, *, origin: float = 0.0, hseed: int = 0) -> None:
        self.ctx = ctx
        self.loop = VLoop(origin=origin, hseed=hseed)
        self.clock = 0
        self.failure: Violation | None = None

    def tick(self) -> int:
        self.clock += 1
        return self.clock

    def spawn(self, coro: Any) -> VTask:
        self.loop.spawning = True
        try:
            return self.loop.create_task(coro)  # type: ignore[return-value]
        finally:
            self.loop.spawning = False

    def fail(self, tag: str, message: str) -> None:
        """Report a violation from within a task (raised by the driver)."""
        if self.failure is None:
            try:
                self.ctx.fail(tag, message)
            except Violation as exc:
                self.failure = exc

    def raise_failure(self) -> None:
        if self.failure is not None:
            raise self.failure

    def step(self, n: int = 1) -> int:
        done = 0
        while done < n and self.loop.step():
            done += 1
            self.raise_failure()
        return done

    def settle(self) -> None:
        self.loop.settle()
        self.obeyed()
        self.raise_failure()

    def obeyed(self) -> None:
        """At rest, a task that was cancelled has ended (the harness never ignores it)."""
        if self.loop.cancelled and self.failure is None:
            t = self.loop.deaf()
            if t is not None:
                self.fail("deaf", "a cancelled task goes on at rest: the cancellation was swallowed")

    def advance(self, seconds: float) -> None:
        self.loop.advance_to(self.loop.time() + seconds)
        self.obeyed()
        self.raise_failure()

    def body(self) -> None:
        raise NotImplementedError

    def run(self) -> None:
        was = gc.isenabled()
        gc.disable()
        try:
            with self.loop.running():
                try:
                    self.body()
                    self.raise_failure()
                except Livelock as exc:
                    self.ctx.fail("livelock", str(exc))
                finally:
                    self.loop.shutdown()
        finally:
            self.loop.close()
            if was:
                gc.enable()


def texc(exc: BaseException | None) -> str:
    return f"{type(exc).__name__}: {exc}" if exc is not None else "None"


async def yields(n: int) -> None:
    for _ in range(n):
        await asyncio.sleep(0)


def pick(seq: Any, i: int) -> Any:
    return seq[i % len(seq)]
