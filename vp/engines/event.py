"""Programs over one Event, compared with a latch model."""

from __future__ import annotations

import asyncio
from typing import Any

from frequenz.channels import ReceiverStoppedError, select, selected_from
from frequenz.channels.event import Event

from ..core import Ctx, Sim, pick, texc, yields


class EventSim(Sim):
    """Interprets a case."""

    CODES = ("set", "recv", "step", "settle", "ready", "consume", "stop", "cancel", "select", "set")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.set_ = False
        self.stopped = False
        self.flag = False
        self.reads = 0
        self.selecting = False
        self.select_done = True
        self.got = 0
        self.stops = 0
        self.tasks: list[asyncio.Task[Any]] = []

    def delivered(self, msg: Any) -> None:
        self.ctx.log("got it")
        self.flag = False
        self.got += 1
        if msg is not None:
            self.fail("latch", f"the message is {msg!r}")
        if not self.set_:
            self.fail("latch", "a message was delivered without a set()")
        self.set_ = False

    def stop_seen(self, how: str) -> None:
        self.ctx.log(f"stopped ({how})")
        self.stops += 1
        if not self.stopped:
            self.fail("stop", f"stop reported ({how}) without a stop()")
        if self.set_:
            self.fail("stop", f"stop reported ({how}) before the pending set() was delivered")

    async def read_one(self, style: int, gap: int) -> bool:
        self.reads += 1
        counted = True
        try:
            if style in (0, 1):
                msg = await (self.ev.receive() if style == 0 else anext(self.ev))
                self.delivered(msg)
                return True
            for _ in range(2 if style == 4 else 1):
                if not await self.ev.ready():
                    self.stop_seen("ready")
                    try:
                        self.ev.consume()
                    except ReceiverStoppedError:
                        pass
                    else:
                        self.fail("stop", "consume() of a stopped event returns")
                    return False
                if not self.set_:
                    self.fail("latch", "ready without a set()")
                self.flag = True
            self.reads -= 1
            counted = False
            if style == 5:
                return True
            if style == 3:
                await yields(gap)
            if self.flag and self.set_:
                self.delivered(self.ev.consume())
            return True
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            if exc.receiver is not self.ev:
                self.fail("stop", "the stop error names another receiver")
            self.stop_seen("receive")
            return False
        except StopAsyncIteration:
            self.stop_seen("anext")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"read style {style} raised {texc(exc)}")
            return False
        finally:
            if counted:
                self.reads -= 1

    async def reader(self, style: int, count: int, gap: int) -> None:
        for _ in range(count):
            if not await self.read_one(style, gap):
                break
            await yields(gap)

    async def select_loop(self, gap: int) -> None:
        stops = 0
        async for sel in select(self.ev):
            self.selecting = False
            if not selected_from(sel, self.ev):
                self.fail("select", "unknown source")
            if sel.was_stopped:
                stops += 1
                self.stop_seen("select")
            elif sel.exception is not None:
                # consumed by another reader in the meantime
                self.fail("unexpected", f"select item with {texc(sel.exception)}")
            else:
                self.delivered(sel.message)
            await yields(gap)
            self.selecting = True
        self.selecting = False
        self.select_done = True
        if stops != 1:
            self.fail("select", f"the select loop reported {stops} stops")

    def at_rest(self) -> None:
        if self.reads:
            if self.set_:
                self.ctx.fail("latch", f"{self.reads} reads wait although the event is set")
            if self.stopped:
                self.ctx.fail("stop", f"{self.reads} reads wait although the event is stopped")
            self.ctx.label("blocked")
        if self.selecting and (self.set_ or self.stopped):
            self.ctx.fail("latch", f"select waits with set={self.set_} stopped={self.stopped}")
        if self.stopped and not self.select_done:
            self.ctx.fail("select", "the select loop does not end")
        self.state()

    def state(self) -> None:
        self.ctx.check(
            self.ev.is_set == self.set_, "state", f"is_set={self.ev.is_set}, expected {self.set_}"
        )
        self.ctx.check(
            self.ev.is_stopped == self.stopped, "state",
            f"is_stopped={self.ev.is_stopped}, expected {self.stopped}",
        )

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    def op(self, code: str, a: int, b: int, c: int) -> None:
        if code == "set":
            if not self.stopped:  # a set() after stop() has no specified meaning
                for _ in range(1 + b // 6):
                    self.ctx.log("set")
                    if self.set_:
                        self.ctx.label("coalesced")
                    self.ev.set()
                    self.set_ = True
        elif code == "stop":
            if a % 2 == 0:
                self.ctx.log("stop")
                if self.set_:
                    self.ctx.label("stopped-while-set")
                if self.reads:
                    self.ctx.label("stopped-while-waiting")
                self.ev.stop()
                self.stopped = True
        elif code == "recv" and self.select_done:
            self.tasks.append(self.spawn(self.reader(b % 5, 1 + c % 4, c // 4)))
        elif code == "ready" and self.select_done:
            self.tasks.append(self.spawn(self.reader(5, 1, 0)))
        elif code == "consume" and self.select_done:
            if self.flag and self.set_:
                self.delivered(self.ev.consume())
        elif code == "step":
            self.step(1 + a % 3)
        elif code == "settle":
            self.rest()
        elif code == "cancel":
            live = [t for t in self.tasks if not t.done()]
            if live:
                self.ctx.label("cancelled")
                pick(live, a).cancel()
        elif code == "select" and self.select_done and not any(not t.done() for t in self.tasks):
            self.select_done = False
            self.selecting = True
            self.spawn(self.select_loop(a % 3))
        self.raise_failure()
        self.state()

    def body(self) -> None:
        self.ev: Any = Event(name="e") if self.case["named"] else Event()
        bag = self.case["bag"]
        for code, a, b, c in self.case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        end = self.case["end"]
        if end % 2:
            if end % 4 == 1 and not self.stopped:
                self.ev.set()
                self.set_ = True
            self.ev.stop()
            self.stopped = True
            self.rest()
        if self.select_done:
            if self.set_:
                self.spawn(self.reader(end % 5, 1, 0))
                self.rest()
                self.ctx.check(not self.set_, "latch", "a pending set() cannot be received")
            if self.stopped:
                for i in range(3):
                    n, g = self.stops, self.got
                    self.spawn(self.reader((end + i) % 5, 1, 0))
                    self.rest()
                    self.ctx.check(
                        self.stops == n + 1 and self.got == g, "stop", "a stopped event does not stay stopped"
                    )
        if self.got:
            self.ctx.label("delivered")
        self.ctx.nontrivial = bool(self.got) and (
            "blocked" in self.ctx.labels or "stopped-while-set" in self.ctx.labels
            or "coalesced" in self.ctx.labels or "cancelled" in self.ctx.labels
        )
