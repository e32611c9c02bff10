"""A timer on a clock that moves by itself, as real ones do: every reading is later than the one before.

There is no exact schedule here. The policy's arguments tell what the timer did, and all of it must be consistent
with a single reading of the clock per tick.
"""

from __future__ import annotations

import asyncio
from typing import Any

from frequenz.channels import ReceiverStoppedError
from frequenz.channels.timer import MissedTickPolicy, SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

from ..core import Ctx, Sim, pick, texc
from .timer import us


class Recorder(MissedTickPolicy):
    """Delegates to another policy."""

    def __init__(self, inner: MissedTickPolicy) -> None:
        self.inner = inner
        self.calls: list[tuple[int, int, int, int]] = []

    def calculate_next_tick_time(self, *, interval: int, scheduled_tick_time: int, now: int) -> int:
        result = self.inner.calculate_next_tick_time(
            interval=interval, scheduled_tick_time=scheduled_tick_time, now=now
        )
        self.calls.append((interval, scheduled_tick_time, now, result))
        return result


class ClockSim(Sim):
    """Interprets a case."""

    CODES = ("read", "advance", "block", "read", "advance", "reset", "ready", "stop")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, origin=(0.0, 1e6, 12345.678901)[case["origin"] % 3], hseed=case["hseed"])
        self.case = case
        self.loop.moves = (1e-6, 3.3e-6, 17e-6, 1.5e-6)[case["skew"] % 4]
        self.interval = (1_000_000, 100_000, 333_333, 50_000)[case["interval"] % 4]
        self.due: tuple[int, int] | None = None  # bounds of the next scheduled time
        self.seen = 0
        self.stopped = False
        self.pending = False
        self.ticks = 0

    def now(self) -> int:
        return round(self.loop._vtime * 1e6)  # without moving the clock

    def claims(self, before: int) -> int | None:
        """A ready() ended: look at the call of the policy, if there was one."""
        calls = self.policy.calls[self.seen:]
        self.seen += len(calls)
        if len(calls) != 1:
            self.fail("tick", f"{len(calls)} calls of the policy for one tick")
            return None
        interval, sched, now, result = calls[0]
        after = self.now()
        if interval != self.interval:
            self.fail("tick", f"the policy was called with interval {interval}")
        if self.due is not None and not self.due[0] <= sched <= self.due[1]:
            self.fail("tick", f"tick scheduled for {sched}, expected {self.due}")
        if now < sched:
            self.fail("tick", f"tick {sched - now}us early")
        if not before <= now <= after:
            self.fail("tick", f"the policy was told {now}, but it is between {before} and {after}")
        self.due = (result, result)
        return now - sched

    async def read(self, how: int) -> None:
        timer = self.timer
        try:
            if how % 3 == 0:
                before = self.now()
                drift = await timer.receive()
            else:
                before = self.now()
                if not await timer.ready():
                    if not self.stopped:
                        self.fail("tick", "a running timer reports its end")
                    return
                for _ in range(how % 3 - 1):
                    await asyncio.sleep(0)
                    await timer.ready()
                drift = timer.consume()
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            if not self.stopped:
                self.fail("tick", f"a running timer raised {texc(exc)}")
            return
        want = self.claims(before)
        self.ticks += 1
        if want is not None and drift != us(want):
            self.fail("tick", f"drift {drift}, but the policy was told of a drift of {us(want)}")

    def reset(self, delay: int) -> None:
        before = self.now()
        self.timer.reset(start_delay=us(delay))
        self.due = (before + delay + self.interval, self.now() + delay + self.interval)
        self.stopped = False

    def body(self) -> None:
        case = self.case
        tol = (0, 1, 10, 5_000)[case["tol"] % 4]
        self.policy = Recorder(
            (TriggerAllMissed(), SkipMissedAndResync(), SkipMissedAndDrift(delay_tolerance=us(tol)))[case["policy"] % 3]
        )
        before = self.now()
        self.timer = Timer(us(self.interval), self.policy)
        self.due = (before + self.interval, self.now() + self.interval)
        task: Any = None
        for code, a, b, c in case["ops"]:
            code = self.CODES[code % len(self.CODES)]
            busy = task is not None and not task.done()
            if code == "read":
                if not busy:
                    task = self.spawn(self.read(b))
            elif code == "advance":
                self.advance(self.interval * (0.3, 1.0, 1.7, 3.0001)[a % 4] / 1e6)
                self.ctx.label("advanced")
            elif code == "block":
                self.loop.block(self.interval * (0.5, 1.2, 2.0, 7.3)[a % 4] / 1e6)
            elif code == "reset" and not busy and c % 2:
                self.reset((0, 1, 77_777)[b % 3])
            elif code == "stop" and not busy and c == 0:
                self.timer.stop()
                self.stopped = True
            if b % 2:
                self.settle()
            self.raise_failure()
        self.settle()
        if self.ticks > 1:
            self.ctx.label("moving-2+")
