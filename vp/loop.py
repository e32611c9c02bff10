"""A virtual-time asyncio event loop whose scheduling is owned by the test harness.

* The clock only moves when the harness says so.
* The harness single-steps the loop and can tell when nothing is runnable any more.
* Tasks get deterministic, generated hash values, so that the iteration order of the
  *sets* of tasks returned by ``asyncio.wait()`` is part of the generated case.
"""

from __future__ import annotations

import asyncio
import contextlib
import sys
import threading
import weakref
from asyncio import events
from typing import Any, Iterator


class Livelock(BaseException):
    """The loop did not come to rest within its iteration budget."""


class VTask(asyncio.Task):  # type: ignore[type-arg]
    """A task with a hash chosen by the loop."""

    def __init__(self, coro: Any, *, loop: VLoop, **kwargs: Any) -> None:
        self._vhash = loop.next_hash()
        super().__init__(coro, loop=loop, eager_start=loop.eager and not loop.spawning, **kwargs)

    def __hash__(self) -> int:
        return self._vhash

    def cancel(self, msg: Any = None) -> bool:
        if not super().cancel(msg):
            return False
        self._loop.cancelled.append(weakref.ref(self))  # type: ignore[attr-defined]
        return True


class _Selector:
    def __init__(self, loop: VLoop) -> None:
        self._loop = loop

    def select(self, timeout: float | None) -> list[Any]:
        return []

    def close(self) -> None:
        pass


class VLoop(asyncio.BaseEventLoop):
    """The loop."""

    MAX_ITER = 20_000

    def __init__(self, origin: float = 0.0, hseed: int = 0) -> None:
        super().__init__()
        self._vtime = origin
        self._clock_resolution = 1e-8  # also for clocks that are months from their origin
        self._selector = _Selector(self)
        self._hseed = hseed
        self.moves = 0.0  # how much later every reading of the clock is
        self.eager = hseed in (6, 11)  # as with asyncio.eager_task_factory (not for tasks of the harness)
        self.spawning = False
        self.sleepers = 0  # sources that take their time to react to a cancellation
        self._ntasks = 0
        self.iterations = 0
        self.errors: list[dict[str, Any]] = []
        self.cancelled: list[weakref.ref[asyncio.Task[Any]]] = []
        self.slow_callback_duration = 1e9
        self.set_task_factory(lambda loop, coro, **kw: VTask(coro, loop=loop, **kw))  # type: ignore
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    # --- hooks of BaseEventLoop -------------------------------------------------
    def time(self) -> float:
        self._vtime += self.moves
        return self._vtime

    def _process_events(self, event_list: Any) -> None:
        pass

    def _write_to_self(self) -> None:
        pass

    def next_hash(self) -> int:
        self._ntasks += 1
        if self._hseed == 0:
            return self._ntasks
        x = (self._ntasks * 0x9E3779B1 + self._hseed * 0x85EBCA77) & 0xFFFFFFFF
        x ^= x >> 15
        x = (x * 0x2C1B3C6D) & 0xFFFFFFFF
        x ^= x >> 12
        return x

    # --- control -----------------------------------------------------------------
    @contextlib.contextmanager
    def running(self) -> Iterator[None]:
        """Make this the running loop, so the driver itself can use asyncio APIs."""
        old = sys.get_asyncgen_hooks()
        self._thread_id = threading.get_ident()
        sys.set_asyncgen_hooks(
            firstiter=self._asyncgen_firstiter_hook,
            finalizer=self._asyncgen_finalizer_hook,
        )
        events._set_running_loop(self)
        try:
            yield
        finally:
            events._set_running_loop(None)
            self._thread_id = None
            sys.set_asyncgen_hooks(*old)

    @contextlib.contextmanager
    def stopped(self, other: VLoop | None = None) -> Iterator[None]:
        """No loop is running (things are set up before the loop runs), or another one is."""
        events._set_running_loop(other)
        try:
            yield
        finally:
            events._set_running_loop(self)

    def _due(self) -> bool:
        if self._ready:
            return True
        while self._scheduled and self._scheduled[0]._cancelled:
            import heapq

            self._timer_cancelled_count -= 1
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
        return bool(
            self._scheduled
            and self._scheduled[0]._when < self.time() + self._clock_resolution
        )

    def next_timer(self) -> float | None:
        self._due()
        return self._scheduled[0]._when if self._scheduled else None

    def step(self) -> bool:
        """Run one loop iteration at the current time; False if nothing was runnable."""
        if not self._due():
            return False
        # While the driver runs, no task is current and the loop is "running"; _run_once
        # is what run_forever() calls.
        self._run_once()
        self.iterations += 1
        return True

    def settle(self, max_iter: int | None = None) -> int:
        """Run until nothing is runnable at the current time."""
        n = 0
        limit = self.MAX_ITER if max_iter is None else max_iter
        while self.step():
            n += 1
            if n > limit:
                raise Livelock(f"still busy after {n} loop iterations")
        return n

    def block(self, seconds: float) -> None:
        """Time passes while the loop is not running."""
        self._vtime += seconds

    def advance_to(self, t: float) -> None:
        """Let time pass with the loop running, up to t, and settle there."""
        self.settle()
        n = 0
        while True:
            nxt = self.next_timer()
            if nxt is None or nxt > t:
                break
            self._vtime = max(self._vtime, nxt)
            self.settle()
            n += 1
            if n > self.MAX_ITER:
                raise Livelock("too many timers")
        self._vtime = max(self._vtime, t)
        self.settle()

    def deaf(self) -> asyncio.Task[Any] | None:
        """A task that was cancelled (and not uncancelled), and is still alive."""
        found = None
        for ref in self.cancelled:
            t = ref()
            if t is not None and not t.done() and t.cancelling():
                found = t
        self.cancelled.clear()
        return found

    def live_tasks(self) -> list[asyncio.Task[Any]]:
        return sorted(
            (t for t in asyncio.all_tasks(self) if not t.done()),
            key=lambda t: t._vhash,  # type: ignore[attr-defined]
        )

    def shutdown(self) -> None:
        """Dispose of everything that is left (not part of the oracle)."""
        try:
            for _ in range(5):
                tasks = self.live_tasks()
                if not tasks:
                    break
                for t in tasks:
                    t.cancel()
                self.settle(2000)
            for ag in list(self._asyncgens):
                with contextlib.suppress(BaseException):
                    self.create_task(ag.aclose())
            self.settle(2000)
        except Livelock:
            pass
        for t in self.live_tasks():
            t._log_destroy_pending = False  # type: ignore[attr-defined]
        self._ready.clear()
        self._scheduled.clear()
