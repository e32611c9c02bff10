"""The receiver protocol, for receivers of all kinds and nestings."""

from __future__ import annotations

import asyncio
from typing import Any

from hypothesis import strategies as st

from frequenz.channels import ReceiverStoppedError

from ..core import Ctx, Sim, pick, texc, yields
from ..fakewatch import FakeFS
from .tree import LEAVES, Tree

LEAF = st.integers(0, len(LEAVES) - 1).map(lambda k: [0, k])
SPEC = st.recursive(
    LEAF,
    lambda inner: st.one_of(
        inner.map(lambda x: [1, x]),
        inner.map(lambda x: [1, x]),
        st.lists(inner, min_size=1, max_size=3).map(lambda xs: [2, *xs]),
    ),
    max_leaves=4,
)


class ProtoSim(Sim):
    """Interprets a case."""

    CODES = ("feed", "recv", "settle", "ready", "step", "consume", "cancel", "advance", "err", "close", "feed", "recv")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.fs = FakeFS()
        self.waiting = 0
        self.flag = False
        self.got = 0
        self.stops = 0
        self.tasks: list[asyncio.Task[Any]] = []
        self.now = 0

    def delivered(self, kind: str, value: Any, how: str) -> None:
        self.ctx.log(f"{kind} {value!r} ({how})")
        self.flag = False
        if self.tree.take(kind, value) is None:
            self.fail("item", f"{how} delivered {value!r}, expected one of {self.tree.expected()}")
            return
        self.got += 1

    def stopped(self, how: str, exc: Any = None) -> None:
        self.ctx.log(f"stopped ({how})")
        self.stops += 1
        if not self.tree.exhausted:
            self.fail("stop", f"stop reported ({how}), but {'there are items left' if self.tree.avail else 'nothing stopped'}")
        if exc is not None and exc.receiver is not self.root:
            self.fail("stop", f"the stop error of {how} names {exc.receiver!r}")

    async def one_ready(self) -> bool:
        """One call to ready() and its immediate consequences."""
        try:
            active = await self.root.ready()
        except asyncio.CancelledError:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("ready", f"ready() raised {texc(exc)}")
            return False
        if active is not True and active is not False:
            self.fail("ready", f"ready() returned {active!r}")
        if active:
            if not self.tree.avail:
                self.fail("ready", "ready() returned True without anything to consume")
            self.flag = True
            return True
        self.stopped("ready")
        for _ in range(2):
            try:
                self.root.consume()
            except ReceiverStoppedError:
                pass
            except BaseException as exc:  # pylint: disable=broad-except
                self.fail("stop", f"consume() of a stopped receiver raised {texc(exc)}")
            else:
                self.fail("stop", "consume() of a stopped receiver returned")
        return False

    def consume(self, how: str) -> None:
        try:
            self.delivered("msg", self.root.consume(), how)
        except ReceiverStoppedError:
            self.fail("stop", "a ready receiver is stopped")
        except Exception as exc:  # pylint: disable=broad-except
            self.delivered("err", exc, how)

    async def read_one(self, style: int) -> bool:
        self.waiting += 1
        counted = True
        try:
            if style in (0, 1):
                value = await (self.root.receive() if style == 0 else anext(self.root))
                self.delivered("msg", value, "receive" if style == 0 else "anext")
                return True
            if style == 2:
                async for value in self.root:
                    self.delivered("msg", value, "async for")
                    return True
                self.stopped("async for")
                return False
            for _ in range(3 if style == 4 else 1):
                if not await self.one_ready():
                    return False
            self.waiting -= 1
            counted = False
            if style == 6:
                return True
            if style == 5 and not self.case["shared"]:
                await yields(3)
            self.consume("consume")
            return True
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            self.stopped("receive", exc)
            return False
        except StopAsyncIteration:
            self.stopped("anext")
            return False
        except Exception as exc:  # pylint: disable=broad-except
            self.delivered("err", exc, "read")
            return True
        finally:
            if counted:
                self.waiting -= 1

    async def reader(self, style: int, count: int) -> None:
        for _ in range(count):
            if not await self.read_one(style):
                break

    def at_rest(self) -> None:
        if self.waiting:
            self.ctx.label("waiting")
            if self.waiting > 1:
                self.ctx.label("waiting-2+")
            # an anycast message claimed by a ready() may be waited for until it is consumed
            claimed = self.shared and self.flag and any(x.kind == "anycast" for x in self.tree.leaves)
            if self.tree.avail and not claimed:
                self.ctx.fail("late", "a read waits although there is something to deliver")
            if self.tree.exhausted:
                self.ctx.fail("stop", "a read of a stopped receiver waits")

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    def live(self) -> list[Any]:
        return [t for t in self.tasks if not t.done()]

    def close(self, leaf: Any) -> None:
        if leaf.closed:
            return
        if leaf.kind == "timer":
            self.rest()
            leaf.close()
            keep = leaf.got + 1 if self.flag and leaf.avail else leaf.got
            del leaf.fed[keep:]
        else:
            leaf.close()
        if leaf.closed:
            self.ctx.log(f"close {leaf.kind}{leaf.idx}")

    def op(self, code: str, a: int, b: int, c: int) -> None:
        leaf = pick(self.tree.leaves, a)
        if code == "feed":
            for i in range(1 + c % 3):
                if leaf.feed("msg", b + i):
                    self.ctx.log(f"message into {leaf.kind}{leaf.idx}")
        elif code == "err":
            leaf.feed("err", b)
        elif code == "close":
            if c % 2:
                self.close(leaf)
        elif code == "recv":
            if self.shared or not self.live():
                if self.live():
                    self.ctx.label("concurrent")
                self.tasks.append(self.spawn(self.reader(b % 6, 1 + a)))
        elif code == "ready":
            if self.shared or not self.live():
                for _ in range(1 + a % 3 if self.shared else 1):
                    if self.live():
                        self.ctx.label("concurrent-ready")
                    self.tasks.append(self.spawn(self.read_one(6)))
        elif code == "consume":
            if self.flag and not self.live():
                self.ctx.label("split-read")
                self.consume("consume")
        elif code == "cancel":
            if self.live():
                watched = any(x.kind == "watcher" for x in self.tree.leaves)
                if watched:
                    self.settle()
                if self.live():
                    self.ctx.label("cancelled")
                    pick(self.live(), a).cancel()
                    if watched:
                        self.rest()
        elif code == "advance":
            for _ in range(1 + a % 3):
                self.tick()
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + a % 3)
        self.raise_failure()

    def tick(self) -> None:
        """A second passes."""
        self.rest()
        self.now += 1
        for x in self.tree.leaves:
            if x.kind == "timer" and not x.closed:
                x.fed.append(("msg", None))
        self.loop.advance_to(self.now + 1e-5)
        self.obeyed()
        self.raise_failure()
        self.at_rest()

    def body(self) -> None:
        with self.fs.installed():
            self.inside()

    def inside(self) -> None:
        case = self.case
        self.tree = Tree(self, case["spec"], self.fs)
        self.root = self.tree.root
        single = any(x.kind == "watcher" and not x.in_merge for x in self.tree.leaves)
        self.shared = bool(case["shared"]) and not single
        self.ctx.label(*(f"leaf-{x.kind}" for x in self.tree.leaves), f"depth-{min(self.tree.depth, 3)}")
        if self.tree.nmaps:
            self.ctx.label("map")
        if self.tree.mergers:
            self.ctx.label("merge")
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        for t in self.live():
            t.cancel()
        self.rest()
        # everything that is left can be read, then every way of reading reports the stop
        end = case["end"]
        for i in range(400):
            if not self.tree.avail:
                break
            self.tasks.append(self.spawn(self.read_one((end + i) % 6)))
            self.rest()
        for x in self.tree.leaves:
            if not x.closed and x.kind == "watcher":
                t = self.spawn(self.read_one(0))  # the watch is only active while it is read
                self.rest()
                self.close(x)
                self.rest()
                t.cancel()
                self.rest()
            self.close(x)
        self.rest()
        for i in range(40):
            if self.tree.exhausted:
                break
            self.tasks.append(self.spawn(self.read_one((end + i) % 6)))
            self.rest()
        for style in (0, 1, 2, 6, 4, 0):
            n = self.stops
            t = self.spawn(self.read_one(style))
            self.rest()
            self.ctx.check(t.done() and self.stops > n, "stop", "a stopped receiver does not report its stop")
        if self.got > 2:
            self.ctx.label("delivered-3+")
