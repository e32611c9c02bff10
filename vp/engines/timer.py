"""Programs over one Timer, compared with an exact model in integer microseconds."""

from __future__ import annotations

import asyncio
from datetime import timedelta
from typing import Any

from frequenz.channels import ReceiverStoppedError, select, selected_from
from frequenz.channels.event import Event
from frequenz.channels.timer import (
    MissedTickPolicy,
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)

from ..core import Ctx, Sim, pick, texc
from ..loop import VLoop

INTERVALS = (1_000_000, 100_000, 1, 7, 1_000, 333_333, 3_600_000_000, 86_400_000_000)
ORIGINS = (0, 1_000_000_000_000, 12_345_678_901, 1, 999_999, 10_000_000_000_000, 500_000, 77_777_777)


def us(n: int) -> timedelta:
    return timedelta(microseconds=n)


class Custom(MissedTickPolicy):
    """A policy that obeys a table and records how it was called."""

    def __init__(self, sim: TimerSim, table: list[int]) -> None:
        self.sim = sim
        self.table = table or [6]
        self.calls: list[tuple[int, int, int, int]] = []

    def rule(self, n: int, interval: int, sched: int, now: int) -> int:
        how = pick(self.table, n) if n % 8 < 5 else 1  # every burst of ticks comes to an end
        if how == 0:
            return sched + interval + 1
        if how == 1:
            return now + interval // 2 + 1
        if how == 2:
            return sched
        if how == 3:
            return now
        if how == 4:
            return sched + 5 * interval
        if how == 5:
            return now + 3 * interval + 1
        if how == 6:
            return sched + interval
        return sched - interval

    def calculate_next_tick_time(self, *, interval: int, scheduled_tick_time: int, now: int) -> int:
        n = len(self.calls)
        for x in (interval, scheduled_tick_time, now):
            if type(x) is not int:
                self.sim.fail("tick", f"policy called with {x!r}")
        result = self.rule(n, interval, scheduled_tick_time, now)
        self.calls.append((interval, scheduled_tick_time, now, result))
        return result


class TimerSim(Sim):
    """Interprets a case."""

    CODES = ("recv", "advance", "step", "ready", "consume", "block", "settle", "reset", "stop", "cancel",
             "select", "event", "badreset")

    def __init__(self, case: dict[str, Any], ctx: Ctx, allow: frozenset[str]) -> None:
        self.origin = pick(ORIGINS, case["origin"])
        self.skew = (0.0, 2e-7, -2e-7)[case["skew"] % 3] if self.origin else 0.0
        super().__init__(ctx, origin=self.origin / 1e6 + self.skew, hseed=case["hseed"])
        self.case = case
        self.allow = allow
        ival = case["interval"]
        self.interval = INTERVALS[ival] if ival < len(INTERVALS) else ival
        self.next: int | None = None
        self.stopped = True
        self.pending: int | None = None
        self.nticks = 0
        self.armed = False  # a select loop has a readiness check in flight
        self.in_body = False
        self.unsure = False
        self.stale = False  # the readiness check that the loop knows of is over, and not repeated yet
        self.select_done = True
        self.select_stopped = False
        self.reads = 0
        self.got = 0
        self.tasks: list[asyncio.Task[Any]] = []
        self.ev: Any = None
        self.maybe: int | None = None  # the drift of a tick that may have become ready just before a stop

    # --- model ---------------------------------------------------------------------
    def now(self) -> int:
        return round(self.loop.time() * 1_000_000)

    def simultaneous(self) -> None:
        """Before a stop or reset by a select body: a tick that is due may or may not be pending already."""
        self.maybe = None
        if self.pending is None and not self.stopped and self.next is not None and self.armed:
            drift = self.now() - self.next
            if drift >= 0:
                self.maybe = drift
                self.unsure = True  # if a readiness check is still in flight: the body ends now
                self.ctx.label("tick-with-change")
                if self.case["policy"] % 4 == 3:
                    calls = self.policy.calls
                    if len(calls) == self.nticks + 1 and calls[-1][:3] == (self.interval, self.next, self.now()):
                        self.nticks += 1

    def mreset(self, delay: int) -> None:
        self.maybe = None
        self.stopped = False
        self.next = self.now() + delay + self.interval
        self.pending = None

    def mpolicy(self, sched: int, now: int) -> int:
        kind = self.case["policy"] % 4
        ival = self.interval
        if kind == 0:
            return sched + ival
        if kind == 1:
            n = 0 if now < sched else (now - sched) // ival + 1
            return sched + n * ival
        if kind == 2:
            return sched + ival if now - sched <= self.tolerance else now + ival
        if self.nticks >= len(self.policy.calls):
            self.fail("tick", f"the policy was not called for the tick scheduled for {sched}")
            return now + ival
        call = self.policy.calls[self.nticks]
        if call[:3] != (ival, sched, now):
            self.fail("tick", f"the policy was called with {call[:3]}, expected {(ival, sched, now)}")
        return call[3]

    def mtick(self) -> int:
        """The pending tick becomes ready now."""
        now = self.now()
        assert self.next is not None
        drift = now - self.next
        if drift < 0:
            self.fail("tick", f"tick {-drift}us early (scheduled for {self.next}, now {now})")
        if drift > 0:
            self.ctx.label("late-tick")
        if drift >= self.interval:
            self.ctx.label("missed-ticks")
        self.pending = drift
        self.next = self.mpolicy(self.next, now)
        self.nticks += 1
        return drift

    def mstart(self) -> None:
        """A read starts: timers that were not started are started by it."""
        if self.next is None:
            self.mreset(0)
            self.ctx.label("started-by-read")

    # --- observations --------------------------------------------------------------
    def became_ready(self, how: str) -> None:
        if self.pending is None:
            if self.stopped and self.maybe is not None:
                self.pending, self.maybe = self.maybe, None
            elif self.stopped:
                self.fail("life", f"a stopped timer is ready ({how})")
            elif self.next is not None:
                self.mtick()

    def delivered(self, drift: Any, how: str) -> None:
        self.became_ready(how)
        self.got += 1
        self.ctx.log(f"{self.now() - self.origin}: tick ({how}), drift {drift}")
        if not isinstance(drift, timedelta):
            self.fail("tick", f"message {drift!r}")
        elif self.pending is not None and drift != us(self.pending):
            self.fail("tick", f"drift {drift}, expected {us(self.pending)}")
        self.pending = None

    def stop_seen(self, how: str, exc: BaseException | None = None) -> None:
        self.ctx.log(f"{self.now() - self.origin}: stopped ({how})")
        if not self.stopped:
            self.fail("life", f"stop reported ({how}) by a running timer")
        if self.pending is not None:
            self.fail("life", f"stop reported ({how}) with a tick pending")
        if exc is not None and getattr(exc, "receiver", None) is not self.timer:
            self.fail("life", "the stop error names another receiver")

    async def read_one(self, style: int, gap: int) -> bool:
        self.mstart()
        self.reads += 1
        counted = True
        try:
            if style in (0, 1):
                self.delivered(await (self.timer.receive() if style == 0 else anext(self.timer)), "read")
                return True
            for _ in range(2 if style == 4 else 1):
                if not await self.timer.ready():
                    self.stop_seen("ready")
                    return False
                self.became_ready("ready")
            self.reads -= 1
            counted = False
            if style == 5:
                return True
            if style == 3:
                await asyncio.sleep(gap / 1e6)
            if self.pending is not None:
                self.delivered(self.timer.consume(), "consume")
            return True
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            self.stop_seen("receive", exc)
            return False
        except StopAsyncIteration:
            self.stop_seen("anext")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"read style {style} raised {texc(exc)}")
            return False
        finally:
            if counted:
                self.reads -= 1

    async def reader(self, style: int, count: int, gap: int) -> None:
        for _ in range(count):
            if not await self.read_one(style, gap):
                break
            if gap:
                await asyncio.sleep(gap / 1e6)

    async def select_loop(self, gap: int, action: int) -> None:
        """A loop like the one of the documented timeout example."""
        self.ev = Event(name="e")
        self.mstart()
        self.armed = True
        stops = 0
        async for sel in select(self.timer, self.ev):
            self.in_body = True
            if selected_from(sel, self.timer):
                self.armed = False
                if sel.was_stopped:
                    stops += 1
                    self.select_stopped = True
                    self.stop_seen("select")
                elif sel.exception is not None:
                    self.fail("select", f"select item with {texc(sel.exception)}")
                else:
                    self.delivered(sel.message, "select")
                    if action % 8 == 6:
                        self.do_stop()
                    elif action % 8 == 7:
                        self.do_reset(self.interval // 2)
            elif selected_from(sel, self.ev):
                if action % 4 == 0:
                    self.do_reset(0)
                    self.ctx.label("reset-in-select")
                elif action % 4 == 1:
                    self.do_stop()
                elif action % 4 == 2:
                    self.do_reset(self.interval)
            if gap and not self.unsure and not self.stale:
                await asyncio.sleep(gap / 1e6)
            self.unsure = False
            if not self.select_stopped:
                self.armed = True
            self.in_body = False
        self.armed = False
        self.select_done = True
        if stops != 1:
            self.fail("select", f"{stops} stops of the timer reported")

    # --- invariants ----------------------------------------------------------------
    def at_rest(self) -> None:
        if not self.in_body:
            self.stale = False
        now = self.now()
        due = self.next is not None and now >= self.next
        if self.armed and self.pending is None and not self.stopped and due:
            self.mtick()
        if self.armed and not self.in_body and not self.select_done and (self.pending is not None or self.stopped):
            self.ctx.fail("late", "a select loop waits although the timer is ready or stopped")
        if self.reads:
            if self.stopped and self.next is not None:
                self.ctx.fail("life", "a read of a stopped timer keeps waiting")
            if self.pending is not None:
                self.ctx.fail("late", "a read waits although a tick is pending")
            if due:
                self.ctx.fail("late", f"a tick is late: due at {self.next}, now {now}")
            self.ctx.label("waiting-read")
        self.state()

    def state(self) -> None:
        self.ctx.check(
            self.timer.is_running == (not self.stopped), "life", f"is_running={self.timer.is_running}"
        )

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    def advance(self, amount: int) -> None:  # type: ignore[override]
        """Time passes with the loop running freely, stopping wherever something is due."""
        target = self.now() + amount
        budget = 400
        while True:
            self.rest()
            now = self.now()
            nxt = target
            t = self.loop.next_timer()
            if t is not None:
                nxt = min(nxt, max(now, round(t * 1e6)))
            if (self.reads or self.armed) and not self.stopped and self.pending is None and self.next is not None:
                nxt = min(nxt, max(now, self.next))
            budget -= 1
            if nxt <= now:
                break
            if budget <= 0:
                break
            self.set_time(nxt)
        self.rest()

    def set_time(self, t: int) -> None:
        v = max(self.loop._vtime, t / 1e6 + self.skew + 5e-8)
        due = self.loop.next_timer()
        if due is not None and v < due and round(due * 1e6) == round(v * 1e6):
            v = due  # a rounding error apart
        self.loop._vtime = v

    # --- driver --------------------------------------------------------------------
    def do_reset(self, delay: int) -> None:
        self.ctx.log(f"{self.now() - self.origin}: reset({delay}us)")
        if self.reads:
            self.ctx.label("reset-during-wait")
        if self.in_body:
            self.simultaneous()
            if self.stopped:
                self.unsure = True  # a readiness check may just have finished
            if self.pending is not None:
                self.armed = False  # the readiness check is over, the next one comes after the body
        if self.pending is not None:
            self.ctx.label("reset-discards-tick")
        if self.stopped and self.next is not None:
            self.ctx.label("restarted")
        if delay:
            self.timer.reset(start_delay=us(delay))
        else:
            self.timer.reset()
        self.mreset(delay)

    def do_stop(self) -> None:
        self.ctx.log(f"{self.now() - self.origin}: stop")
        if self.reads:
            self.ctx.label("stop-during-wait")
        if self.pending is not None:
            self.ctx.label("stop-with-tick")
        self.maybe = None
        if self.in_body:
            self.simultaneous()
            self.armed = False
        self.timer.stop()
        self.stopped = True
        self.next = self.now()

    def amount(self, a: int, b: int, c: int) -> int:
        base = (0, self.interval // 4, self.interval // 2, self.interval, self.interval * 2,
                self.interval * 5 // 2, self.interval * 7 // 3, self.interval * 4)[a % 8]
        if c == 6:
            base *= 5 + 11 * b  # many intervals
        return max(0, base + (0, 0, 1, 3, -1, self.tolerance, self.tolerance + 1, 0)[b % 8] + (0, 0, 0, 17)[c % 4])

    def gap(self, c: int) -> int:
        return (0, 0, self.interval // 3, self.interval, self.interval * 3 // 2, self.interval * 3, 1, 0)[c % 8]

    def op(self, code: str, a: int, b: int, c: int) -> None:
        free = self.select_done
        if code == "advance":
            self.advance(self.amount(a, b, c))
        elif code == "block":
            if self.armed:
                self.rest()  # so that it is known what became ready before
            self.set_time(self.now() + self.amount(a, b, c))
            self.ctx.log(f"{self.now() - self.origin}: (after being blocked)")
        elif code == "step":
            self.step(1 + a % 3)
        elif code == "settle":
            self.rest()
        elif code == "recv" and free:
            self.tasks.append(self.spawn(self.reader(b % 5, 1 + a, self.gap(c))))
        elif code == "ready" and free:
            self.tasks.append(self.spawn(self.reader(5, 1, 0)))
        elif code == "consume" and free:
            if self.pending is not None:
                self.delivered(self.timer.consume(), "consume")
        elif code == "reset" and "reset" in self.allow:
            if not free:
                self.rest()
                if self.in_body and self.stopped:
                    # the stop ended the readiness check, the next one comes after the body, or after the next one
                    self.armed, self.stale = False, True
            self.do_reset((0, 0, self.interval, self.interval * 3, 1, self.interval // 2, 0, 10_000_000)[a % 8])
        elif code == "badreset" and "reset" in self.allow:
            self.reject(lambda: self.timer.reset(start_delay=us(-1 - a)), "reset(negative)")
        elif code == "stop" and "stop" in self.allow and b % 2 == 0:
            if not free:
                self.rest()
            self.do_stop()
            if c % 2:
                self.do_stop()
        elif code == "cancel" and "cancel" in self.allow:
            live = [t for t in self.tasks if not t.done()]
            if live:
                self.ctx.label("cancelled")
                pick(live, a).cancel()
        elif code == "select" and "select" in self.allow and free:
            if not any(not t.done() for t in self.tasks) and not (self.stopped and self.next is not None):
                self.ctx.label("select")
                self.select_done = False
                self.select_stopped = False
                self.in_body = False
                self.spawn(self.select_loop(self.gap(c), a))
                self.rest()
        elif code == "event" and not free:
            self.ev.set()
        self.raise_failure()
        self.state()

    def reject(self, call: Any, what: str) -> None:
        try:
            call()
        except ValueError:
            return
        self.ctx.fail("reject", f"{what} was accepted")

    def rejections(self) -> None:
        n, p = self.case["bad"], TriggerAllMissed()
        bad = us(-1 - n * 1000)
        self.reject(lambda: Timer(us(0), p), "a zero interval")
        self.reject(lambda: Timer(us(-self.interval), p), "a negative interval")
        self.reject(lambda: Timer(us(self.interval), p, start_delay=bad), "a negative start_delay")
        self.reject(
            lambda: Timer(us(self.interval), p, start_delay=bad, auto_start=False),
            "a negative start_delay without auto_start",
        )
        self.reject(lambda: SkipMissedAndDrift(delay_tolerance=bad), "a negative delay_tolerance")
        self.reject(
            lambda: Timer(us(self.interval), p, start_delay=us(1 + n), auto_start=False),
            "a start_delay without auto_start",
        )

    def create(self, delay: int, kw: dict[str, Any]) -> None:
        case = self.case
        if case["auto"]:
            self.timer: Any = Timer(us(self.interval), self.policy, start_delay=us(delay), **kw)
            self.mreset(delay)
        else:
            self.timer = Timer(us(self.interval), self.policy, auto_start=False, **kw)

    def body(self) -> None:
        case = self.case
        tol = case["tol"]
        self.tolerance = tol % (self.interval * 8) if tol > 5 else (
            0, 1, self.interval // 10, self.interval // 2, self.interval, self.interval * 2)[tol]
        kind = case["policy"] % 4
        self.policy: Any = (
            TriggerAllMissed() if kind == 0 else SkipMissedAndResync() if kind == 1
            else (SkipMissedAndDrift(delay_tolerance=us(self.tolerance)) if self.tolerance else SkipMissedAndDrift())
            if kind == 2 else Custom(self, case["table"])
        )
        self.ctx.label(type(self.policy).__name__)
        if "reset" in self.allow:
            self.rejections()
        delay = (
            case["delay"] % (self.interval * 20) if case["delay"] > 4
            else (0, 0, self.interval // 2, self.interval * 3, 1)[case["delay"]]
        )
        kw: dict[str, Any] = {"loop": self.loop} if case["hseed"] % 2 else {}
        if kw and case["hseed"] % 3 == 0:
            other = VLoop(origin=self.loop.time() + 1234.5) if case["hseed"] % 4 == 1 else None
            with self.loop.stopped(other):
                self.create(delay, kw)
            if other is not None:
                other.close()
        else:
            self.create(delay, kw)
        self.state()
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        if self.select_done:
            # whatever happened before, the timer works as specified from here
            for t in self.tasks:
                t.cancel()
            self.rest()
            for i in range(2):
                self.tasks.append(self.spawn(self.reader((case["end"] + i) % 5, 1, 0)))
                self.rest()
                if self.reads and self.next is not None:
                    self.advance(max(0, self.next - self.now()))
                    self.ctx.check(not self.reads, "late", "the next tick never comes")
        if kind == 3:
            self.ctx.check(
                len(self.policy.calls) == self.nticks,
                "tick", f"the policy was called {len(self.policy.calls)} times for {self.nticks} ticks",
            )
        if self.got > 1:
            self.ctx.label("ticks-2+")
