"""select() loops and merges over mixed sources, session after session.

Every source delivers *lanes* of uniquely identifiable items (messages and errors). The
model is the position in every lane: an item may only be delivered as the next one of its
lane, whoever reads the source, and whatever happened to the readers before.
"""

from __future__ import annotations

import asyncio
import contextlib
import gc
from collections import deque
from typing import Any

from frequenz.channels import (
    Anycast,
    Broadcast,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event

from ..core import Ctx, FalsyError, Sim, make_msg, pick, texc, yields

READY_AFTER = 12
"""Loop iterations within which a source that got something surely counts as ready."""

BYPASS = 2


class Boom(Exception):
    """Raised by loop bodies and sources."""


class Halted(ReceiverStoppedError[Any]):
    """A kind of stop of our own."""


class Scripted(Receiver[Any]):
    """A receiver of our own that obeys the receiver protocol."""

    def __init__(self, name: str) -> None:
        self.name = name
        self.queue: deque[tuple[str, Any]] = deque()
        self.closed = False
        self.taken = 0
        self.waiters: list[asyncio.Future[None]] = []
        self.slow = 0  # how many steps (or seconds, if negative) it takes to cancel a wait

    def put(self, kind: str, value: Any) -> None:
        self.queue.append((kind, value))
        self.wake()

    def close(self) -> None:
        self.closed = True
        self.wake()

    def wake(self) -> None:
        waiters, self.waiters = self.waiters, []
        for w in waiters:
            if not w.done():
                w.set_result(None)

    async def ready(self) -> bool:
        while not self.queue:
            if self.closed:
                return False
            fut = asyncio.get_running_loop().create_future()
            self.waiters.append(fut)
            try:
                await fut
            finally:
                if fut.cancelled():
                    if self.slow < 0:
                        await self.doze()
                    else:
                        await yields(self.slow)
        if self.queue[0][0] == "rdy":
            self.taken += 1
            raise self.queue.popleft()[1]
        return True

    async def doze(self) -> None:
        loop: Any = asyncio.get_running_loop()
        loop.sleepers += 1
        try:
            await asyncio.sleep(-self.slow)
        finally:
            loop.sleepers -= 1

    def consume(self) -> Any:
        if not self.queue:
            assert self.closed, "consume() without a message"
            raise (Halted if self.taken % 2 else ReceiverStoppedError)(self)
        self.taken += 1
        kind, value = self.queue.popleft()
        if kind == "msg":
            return value
        raise value

    def __str__(self) -> str:
        return self.name


class Evil(Scripted):
    """All instances are equal."""

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Evil)

    def __hash__(self) -> int:
        return 7


class Wrapped:
    """What the map function returns."""

    __slots__ = ("inner",)

    def __init__(self, inner: Any) -> None:
        self.inner = inner


class Lane:
    """The items of one end point, in order."""

    def __init__(self, sim: MuxSim, name: str, scripted: Scripted | None = None) -> None:
        self.sim = sim
        self.name = name
        self.scripted = scripted
        self.fed: list[tuple[str, Any]] = []
        self.got = 0
        self.closed = False
        self.slack = 0
        self.since = 0  # the loop iteration at which it got something to deliver

    @property
    def avail(self) -> bool:
        return self.got < len(self.fed)

    def add(self, kind: str, value: Any) -> None:
        if not self.avail:
            self.since = self.sim.loop.iterations
        self.fed.append((kind, value))


class Source:
    """Something that can be read."""

    def __init__(self, sim: MuxSim, idx: int, kind: str) -> None:
        self.sim = sim
        self.idx = idx
        self.kind = kind
        self.lanes: list[Lane] = []
        self.bypass: dict[int, int] = {}
        self.stop_reported = False
        self.origin: Any = None
        self.mapped = kind in ("map", "mapany", "mapmerge")
        sname = f"s{idx}" if sim.case["hseed"] % 4 else "s"  # different sources may have the same name
        self.ev: Any = None
        self.chan: Any = None
        self.sender: Any = None
        self.subs: list[Scripted] = []
        if kind in ("scripted", "map"):
            self.subs = [Scripted(sname)]
        elif kind == "evil":
            self.subs = [Evil(sname)]
        elif kind in ("merge", "mapmerge"):
            self.subs = [Scripted(sname + ab) for ab in ("ab" if sim.case["hseed"] % 4 else "aa")]
        elif kind in ("anycast", "mapany"):
            self.chan = Anycast(name=sname, limit=500)
            self.recv: Any = self.chan.new_receiver()
            self.sender = self.chan.new_sender()
        elif kind == "broadcast":
            self.chan = Broadcast(name=sname)
            self.recv = self.chan.new_receiver(limit=500)
            self.sender = self.chan.new_sender()
        else:
            assert kind == "event"
            self.ev = Event(name=sname)
            self.recv = self.ev
        for sub in self.subs:
            sub.slow = (0, 0, 0, 0, 1, 2, -90, 9)[(sim.case["hseed"] + 3 * idx) % 8]
        self.merger: Any = None
        if self.subs:
            self.recv = self.subs[0]
            if len(self.subs) > 1:
                self.recv = self.merger = merge(*self.subs)
            self.lanes = [Lane(sim, s.name, s) for s in self.subs]
        else:
            self.lanes = [Lane(sim, sname)]
        self.origin = self.recv
        if self.mapped:
            self.recv = self.recv.map(Wrapped)

    @property
    def avail(self) -> bool:
        return any(lane.avail for lane in self.lanes)

    @property
    def closed(self) -> bool:
        return all(lane.closed for lane in self.lanes)

    @property
    def exhausted(self) -> bool:
        return self.closed and not self.avail

    def can_err(self) -> bool:
        return bool(self.subs)

    def feed(self, kind: str, which: int) -> None:
        sim = self.sim
        lane = pick(self.lanes, which)
        if lane.closed or sim.nfed >= sim.max_feed:
            return
        if kind != "msg" and not self.can_err():
            return
        if kind == "rdy" and (sim.rdy is not None or self.merger is not None):
            return
        sim.nfed += 1
        n = sim.nfed
        if kind == "msg":
            value: Any = make_msg((0, 0, 0, 1, 4, 6, 7)[which % 7], n)
        else:
            value = (Boom(n), ReceiverError("receiver error", self.origin), ValueError(n), TimeoutError(n), FalsyError(n))[n % 5]
        if kind == "rdy":
            sim.rdy = (self, value)
            sim.ctx.label("ready-error")
        if kind == "err":
            sim.ctx.label("error")
        sim.ctx.log(f"{kind} {value!r} into {lane.name}")
        if self.ev is not None:
            if not self.ev.is_set:
                lane.add("msg", None)
            self.ev.set()
        elif self.subs:
            lane.add(kind, value)
            lane.scripted.put(kind, value)
        else:
            lane.add("msg", value)
            sim.spawn(self.sender.send(value))

    def close(self, which: int) -> None:
        lane = pick(self.lanes, which)
        if lane.closed:
            return
        self.sim.ctx.log(f"close {lane.name}")
        lane.closed = True
        if self.ev is not None:
            self.ev.stop()
        elif self.subs:
            lane.scripted.close()
        else:
            self.sim.spawn(self.chan.close())

    def take(self, kind: str, value: Any) -> Lane | None:
        """An item was delivered; None if it is not the next one of any lane."""
        if kind == "msg" and self.mapped:
            if type(value) is not Wrapped:
                return None
            value = value.inner
        for lane in self.lanes:
            span = range(lane.got, min(len(lane.fed), lane.got + lane.slack + 1))
            for i in reversed(span) if self.ev is not None else span:  # events hold one message at most
                k, v = lane.fed[i]
                if v is value and (k == "msg") == (kind == "msg"):
                    lane.got = i + 1
                    lane.slack = 0
                    lane.since = self.sim.loop.iterations
                    return lane
        return None

    def sync(self) -> None:
        """Skip a readiness error that surfaced in the clean up of something else."""
        if self.sim.rdy is None or self.sim.rdy[0] is not self:
            return
        for lane in self.lanes:
            if lane.avail and lane.fed[lane.got][0] == "rdy":
                assert lane.scripted is not None
                if lane.scripted.taken > lane.got:
                    lane.got += 1
                    self.sim.rdy = None

    def undelivered(self) -> int:
        return sum(len(lane.fed) - lane.got for lane in self.lanes)


KINDS = ("scripted", "anycast", "broadcast", "evil", "map", "merge", "evil", "mapany", "event", "mapmerge")


class Session:
    """One reader of several sources."""

    def __init__(self, sim: MuxSim, kind: str, sources: list[Source], conf: list[int]) -> None:
        self.sim = sim
        self.kind = kind
        self.sources = sources
        self.script = conf
        self.style = conf[0]
        self.exit_how = pick(sim.exits, conf[1])
        self.exit_after = 1 + conf[2] % 7
        self.claim = conf[3]
        self.count = 0
        self.waiting = 0
        self.ended = False
        self.over = ""
        self.tasks: list[asyncio.Task[Any]] = []
        self.it: Any = None
        self.merger: Any = None
        self.expect_error: Any = None
        self.shared_ok = 6 not in [x % 8 for x in conf]  # no gaps between ready() and consume()
        self.reported: set[int] = set()
        self.stop_called = False
        self.taken_at_stop: list[int] | None = None
        for s in sources:
            s.bypass = {}

    # --- bookkeeping ------------------------------------------------------------
    def served(self, src: Source) -> None:
        sim = self.sim
        src.bypass = {}
        for other in self.sources:
            if other is src or not other.avail:
                continue
            lanes = [la for la in other.lanes if la.avail]
            if sim.loop.iterations - min(la.since for la in lanes) < READY_AFTER:
                continue
            n = other.bypass.get(src.idx, 0) + 1
            other.bypass[src.idx] = n
            sim.max_bypass = max(sim.max_bypass, n)
            if n >= 1:
                sim.ctx.label("contended")
            if n > BYPASS:
                sim.fail("fair", f"s{src.idx} was served {n} times while s{other.idx} was ready and waiting")

    def item(self, src: Source, kind: str, value: Any) -> None:
        sim = self.sim
        sim.ctx.log(f"got {kind} {value!r} from s{src.idx}" if src else f"got {value!r}")
        before = src.avail
        if src.take(kind, value) is None:
            nxt = [la.fed[la.got] for la in src.lanes if la.avail]
            sim.fail("item", f"s{src.idx} delivered {value!r}, expected one of {nxt!r}")
            return
        assert before
        if sim.rdy is not None and sim.rdy[1] is value:
            sim.rdy = None
        sim.delivered += 1
        self.served(src)

    async def body(self) -> str:
        """What the loop body does; returns how to leave the loop."""
        sim = self.sim
        self.count += 1
        if self.count >= self.exit_after and self.exit_how in ("break", "raise", "unhandled", "wrong", "aclose-break"):
            return self.exit_how
        i = 4 + 2 * self.count
        act, arg = pick(self.script, i), pick(self.script, i + 1)
        act = pick(sim.acts, act)
        if act == "yield":
            await yields(1 + arg % 4)
        elif act == "sleep":
            await asyncio.sleep(1 + arg % 3)
        elif act == "feed":
            pick(sim.sources, arg).feed("msg", arg)
        elif act == "feedall":
            for k, s in enumerate(self.sources):
                s.feed("msg", arg + k)
        elif act == "feed2":
            pick(self.sources, arg).feed("msg", arg)
            pick(self.sources, arg).feed("msg", arg + 1)
        elif act == "close":
            pick(self.sources, arg).close(arg)
        elif act == "feedsleep":
            pick(self.sources, arg).feed("msg", arg)
            await asyncio.sleep(1)
            pick(self.sources, arg + 1).feed("msg", arg)
        elif act == "steal":
            await self.steal(pick(self.sources, arg))
        return ""

    async def steal(self, src: Source) -> None:
        """The body reads a message of another receiver directly."""
        sim = self.sim
        if not src.avail or any(la.avail and la.fed[la.got][0] == "rdy" for la in src.lanes):
            return
        sim.ctx.label("body-reads-other")
        try:
            value = await src.recv.receive()
            kind = "msg"
        except ReceiverStoppedError:
            sim.fail("item", f"s{src.idx} stopped before its last message")
            return
        except Exception as exc:  # pylint: disable=broad-except
            value, kind = exc, "err"
        sim.ctx.log(f"the body got {value!r} from s{src.idx}")
        if src.take(kind, value) is None:
            nxt = [la.fed[la.got] for la in src.lanes if la.avail]
            sim.fail("item", f"s{src.idx} delivered {value!r}, expected one of {nxt!r}")
        else:
            sim.delivered += 1
            src.bypass = {}
            if sim.rdy is not None and sim.rdy[1] is value:
                sim.rdy = None

    # --- select -----------------------------------------------------------------
    def claim_item(self, sel: Any, how: str) -> Source | None:
        sim = self.sim
        order = self.sources[self.claim % len(self.sources):] + self.sources[: self.claim % len(self.sources)]
        if self.claim % 2:
            order.reverse()
        if how == "unhandled":
            return None
        hits = []
        for s in order:
            if how == "wrong" and s is self.truth(sel):
                continue
            if selected_from(sel, s.recv):
                hits.append(s)
                if self.claim % 3:
                    break  # like an if-chain
        if how == "wrong":
            if hits:
                sim.fail("claim", f"selected_from() is true for s{hits[0].idx}, which the item is not from")
            return None
        if len(hits) != 1:
            sim.fail("claim", f"selected_from() is true for {[h.idx for h in hits]}")
            return hits[0] if hits else None
        return hits[0]

    def truth(self, sel: Any) -> Source | None:
        """The source the item is really from, judging by its content."""
        exc = sel.exception
        for s in self.sources:
            if sel.was_stopped:
                if exc.receiver is s.origin or exc.receiver is s.recv:
                    return s
                continue
            value = exc if exc is not None else sel.message
            if exc is None and s.mapped:
                if type(value) is not Wrapped:
                    continue
                value = value.inner
            for lane in s.lanes:
                if lane.avail and lane.fed[lane.got][1] is value:
                    return s
        return None

    def on_selected(self, sel: Any, how: str) -> None:
        sim = self.sim
        truth = self.truth(sel)
        src = self.claim_item(sel, how)
        if sel.exception is not None:
            try:
                value = sel.message
            except Exception as exc:  # pylint: disable=broad-except
                if exc is not sel.exception:
                    sim.fail("item", f"the item raises {texc(exc)}, its exception is {texc(sel.exception)}")
            else:
                sim.fail("item", f"the item has the message {value!r} and the exception {texc(sel.exception)}")
        if how in ("unhandled", "wrong"):
            src = truth
        if src is None:
            sim.fail("claim" if truth is None else "item", f"nothing matches the item {sel!r}")
            return
        exc = sel.exception
        if sel.was_stopped:
            sim.ctx.log(f"s{src.idx} stopped")
            if exc is None or (exc.receiver is not src.origin and exc.receiver is not src.recv):
                sim.fail("stop", f"the stop of s{src.idx} is attributed to {exc!r}")
            if src.idx in self.reported:
                sim.fail("stop", f"the stop of s{src.idx} was reported twice")
            self.reported.add(src.idx)
            if not src.closed:
                sim.fail("stop", f"s{src.idx} is reported as stopped")
            elif src.avail:
                sim.fail("stop", f"s{src.idx} is reported as stopped before its last message")
            return
        if src.idx in self.reported:
            sim.fail("stop", f"an item of s{src.idx} after its stop")
        if exc is not None:
            self.item(src, "err", exc)
        else:
            self.item(src, "msg", sel.message)

    async def run_select(self) -> None:
        sim = self.sim
        it = select(*[s.recv for s in self.sources])
        closing = self.exit_how in ("aclose", "aclose-break") or self.style % 4 == 3
        expected: Any = None
        try:
            async with contextlib.AsyncExitStack() as stack:
                if closing:
                    await stack.enter_async_context(contextlib.aclosing(it))
                    self.it = it
                else:
                    it2, it = it, None
                    it = it2
                    del it2
                self.waiting = 1
                async for sel in it:
                    if not closing:
                        it = None
                    self.waiting = 0
                    last = self.count + 1 >= self.exit_after
                    how = self.exit_how if last and self.exit_how in ("unhandled", "wrong") else ""
                    self.on_selected(sel, how)
                    leave = await self.body()
                    if leave in ("break", "aclose-break"):
                        self.over = "break"
                        break
                    if leave == "raise":
                        self.over = "raise"
                        raise Boom(self)
                    if how:
                        expected = sel
                    del sel
                    self.waiting = 1
                else:
                    self.over = "end"
                self.waiting = 0
        except UnhandledSelectedError as exc:
            self.over = "unhandled"
            if expected is None:
                sim.fail("claim", f"unexpected {texc(exc)}")
            elif exc.selected is not expected:
                sim.fail("claim", "UnhandledSelectedError names another item")
            expected = None
        except SelectError as exc:
            self.over = "select-error"
            if sim.rdy is None or exc.__cause__ is not sim.rdy[1]:
                sim.fail("claim", f"unexpected {texc(exc)}, caused by {texc(exc.__cause__)}")
            else:
                for s in self.sources:
                    s.sync()
        except Boom as exc:
            if exc.args != (self,):
                sim.fail("claim", "an error of a source was raised by the loop")
        except BaseExceptionGroup as exc:
            if sim.rdy is None or any(e is not sim.rdy[1] for e in exc.exceptions):
                sim.fail("unexpected", f"unexpected group {exc.exceptions!r}")
            self.over = "group"
            for s in self.sources:
                s.sync()
        except asyncio.CancelledError:
            self.over = "cancel"
        except BaseException as exc:  # pylint: disable=broad-except
            sim.fail("unexpected", f"the select loop raised {texc(exc)}")
        finally:
            self.waiting = 0
            self.ended = True
            self.it = None
            it = None
            sim.ctx.label(f"over-{self.over}")
            sim.ctx.log(f"select over: {self.over}")
        if self.over in ("end", "unhandled", "select-error") or (closing and self.over in ("break", "raise")):
            self.leak_now("leak", f"the loop ended ({self.over})")
        if expected is not None and self.over == "end":
            sim.fail("claim", "an item that was not claimed caused no error")
        if self.over == "end":
            for s in self.sources:
                if s.idx not in self.reported:
                    sim.fail("stop", f"the loop ended without reporting the stop of s{s.idx}")

    # --- merge ------------------------------------------------------------------
    def merge_item(self, kind: str, value: Any) -> None:
        sim = self.sim
        for s in self.sources:
            for lane in s.lanes:
                v = value
                if kind == "msg" and s.mapped:
                    if type(v) is not Wrapped:
                        continue
                    v = v.inner
                if lane.avail and lane.fed[lane.got][1] is v:
                    self.item(s, kind, value)
                    return
        sim.fail("item", f"the merge delivered {value!r}, which is not the next item of any source")

    def merge_stop(self, how: str) -> None:
        sim = self.sim
        sim.ctx.log(f"merge stopped ({how})")
        self.over = "end"
        if self.stop_called:
            return
        for s in self.sources:
            if s.avail:
                sim.fail("stop", f"the merge stopped but s{s.idx} has items left")
            elif not s.closed:
                sim.fail("stop", f"the merge stopped but s{s.idx} did not")

    async def read_merge(self, style: int) -> bool:
        """Read one item from the merge; False if it is over."""
        m, sim = self.merger, self.sim
        self.waiting += 1
        waiting = True
        try:
            if style == 0:
                value = await m.receive()
            elif style == 1:
                value = await anext(m)
            else:
                for _ in range(2 if style == 3 else 1):
                    if not await m.ready():
                        self.merge_stop("ready")
                        try:
                            m.consume()
                        except ReceiverStoppedError:
                            return False
                        sim.fail("stop", "a stopped merge can be consumed")
                        return False
                self.waiting -= 1
                waiting = False
                if style == 4 and not self.shared:
                    await yields(3)
                value = m.consume()
            self.merge_item("msg", value)
            return True
        except asyncio.CancelledError:
            if not self.cancelled:
                sim.fail("waiter", "a read was cancelled by somebody else")
            raise
        except StopAsyncIteration:
            self.merge_stop("anext")
            return False
        except ReceiverStoppedError as exc:
            if exc.receiver is not m:
                sim.fail("stop", f"the stop names {exc.receiver}")
            self.merge_stop("receive")
            return False
        except Exception as exc:  # pylint: disable=broad-except
            self.merge_item("err", exc)
            return True
        finally:
            if waiting:
                self.waiting -= 1

    cancelled = False
    shared = False  # several tasks are reading

    async def run_merge(self) -> None:
        while not self.ended:
            style = pick(self.script, self.count)
            if not await self.read_merge((0, 0, 1, 1, 2, 3, 4, 0)[style % 8]):
                break
            if await self.body():
                break

    async def stop_merge(self) -> None:
        self.stop_called = True
        self.sim.ctx.label("stop-waiting" if self.waiting else "stop-idle")
        self.sim.ctx.log("merge.stop()")
        try:
            await self.merger.stop()
        except asyncio.CancelledError:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            self.sim.fail("unexpected", f"stop() raised {texc(exc)}")
        self.taken_at_stop = self.taken()
        self.leak_now("mleak", "stop() returned")

    def leak_now(self, tag: str, when: str) -> None:
        sim = self.sim
        extra = len(sim.foreign()) - sum(len(s.lanes) for s in sim.sources if s.merger is not None)
        if extra > 0:
            sim.fail(tag, f"{extra} background task(s) left when {when}")

    def taken(self) -> list[int]:
        return [lane.scripted.taken for s in self.sources for lane in s.lanes if lane.scripted and not s.merger]


class MuxSim(Sim):
    """Interprets a case."""

    CODES = ("feed", "start", "step", "settle", "feed", "close", "exit", "err", "advance", "feedmany", "rdy", "read2")
    ACTS = ("none", "yield", "sleep", "feed", "feed2", "feedall", "close", "feedsleep", "steal")

    def __init__(self, case: dict[str, Any], ctx: Ctx, kinds: tuple[str, ...], exits: tuple[str, ...],
                 max_feed: int = 60) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.kinds = kinds
        self.exits = exits
        self.acts = [self.ACTS[a % len(self.ACTS)] for a in case["acts"]] or ["none"]
        self.nfed = 0
        self.max_feed = max_feed
        self.delivered = 0
        self.max_bypass = 0
        self.rdy: Any = None
        self.mine: set[int] = set()
        self.mytasks: list[Any] = []
        self.session: Session | None = None
        self.sources: list[Source] = []
        self.nsessions = 0
        self.nexits = 0

    def spawn(self, coro: Any) -> Any:
        t = super().spawn(coro)
        self.mytasks.append(t)
        return t

    # --- invariants ----------------------------------------------------------------
    def foreign(self) -> list[Any]:
        mine = set(map(id, self.mytasks))
        return [t for t in self.loop.live_tasks() if id(t) not in mine]

    def nested(self) -> int:
        """The number of tasks that merges among the sources may have."""
        return sum(1 for s in self.sources if s.merger is not None for la in s.lanes if not la.closed or la.avail)

    def settle(self) -> None:
        """Run until nothing happens any more, which may take time if sources are slow to let go."""
        self.loop.settle()
        while self.loop.sleepers and (t := self.loop.next_timer()) is not None:
            self.ctx.label("slow-to-let-go")
            self.loop.advance_to(t)
        super().settle()

    def advance(self, seconds: float) -> None:
        self.loop.advance_to(self.loop.time() + seconds)
        self.settle()

    def leak_check(self, tag: str) -> None:
        allowed = self.nested()
        tasks = self.foreign()
        if len(tasks) > allowed:
            gc.collect()
            self.settle()
            tasks = self.foreign()
        if len(tasks) > allowed:
            names = sorted(t.get_coro().__qualname__ for t in tasks)
            self.ctx.fail(tag, f"{len(tasks) - allowed} background task(s) left: {names}")

    def at_rest(self) -> None:
        ses = self.session
        if ses is None or ses.ended or not ses.waiting:
            return
        self.ctx.label("waiting")
        for s in ses.sources:
            if s.avail and not ses.stop_called:
                self.ctx.fail("late", f"the {ses.kind} waits although s{s.idx} has something to deliver")
            if s.exhausted and ses.kind == "select" and s.idx not in ses.reported:
                self.ctx.fail("late", f"the select waits although s{s.idx} has stopped")
        if ses.kind == "merge":
            if ses.stop_called:
                self.ctx.fail("waiter", "a read keeps waiting after stop()")
            if all(s.exhausted for s in ses.sources):
                self.ctx.fail("late", "the merge waits although all of its sources have stopped")

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    # --- sessions --------------------------------------------------------------------
    def start(self, a: int, conf: list[int]) -> None:
        if self.session is not None and not self.session.ended:
            return
        self.finish()
        mask = 1 + a % (2 ** len(self.sources) - 1)
        if a == 0 or conf[5] % 2:
            mask = 2 ** len(self.sources) - 1
        chosen = [s for i, s in enumerate(self.sources) if mask >> i & 1]
        k = conf[6] % len(chosen)
        chosen = chosen[k:] + chosen[:k]
        kind = self.case["mode"]
        if kind == "mixed":
            kind = "merge" if conf[7] % 2 else "select"
        for s in chosen:
            for la in s.lanes:
                la.since = max(la.since, self.loop.iterations)
        ses = self.session = Session(self, kind, chosen, conf)
        self.nsessions += 1
        self.ctx.log(f"start {kind} of {[s.idx for s in chosen]}, exit {ses.exit_how} after {ses.exit_after}")
        if kind == "select":
            if self.nsessions > 1:
                self.ctx.label("select-again")
            ses.tasks.append(self.spawn(ses.run_select()))
            ses.tasks[0].add_done_callback(lambda t, ses=ses: setattr(ses, "ended", True))  # cancelled at once
        else:
            ses.merger = merge(*[s.recv for s in chosen])
            ses.tasks.append(self.spawn(ses.run_merge()))

    def exit(self, how: str) -> None:
        """End the current session from outside."""
        ses = self.session
        if ses is None or ses.ended:
            return
        self.nexits += 1
        if ses.kind == "select":
            if ses.waiting:
                self.ctx.label("exit-while-waiting")
            else:
                self.ctx.label("exit-in-body")
            for t in ses.tasks:
                t.cancel()
            return
        self.finish_merge(how)

    def finish_merge(self, how: str) -> None:
        ses = self.session
        assert ses is not None
        if how == "stop":
            if all(t.done() for t in ses.tasks) and ses.over != "end":
                self.ctx.label("stop-without-reader")
            again = ses.script[4 % len(ses.script)] % 4
            first = self.spawn(ses.stop_merge())
            if again == 3:
                self.step(1 + ses.script[5 % len(ses.script)] % 3)
                if not first.done():
                    first.cancel()
                    self.ctx.label("stop-cancelled")
                    self.step(ses.script[6 % len(ses.script)] % 2)
                    self.spawn(ses.stop_merge())
            if again == 1:
                self.spawn(ses.stop_merge())
            self.settle()
            if again == 2:
                self.spawn(ses.stop_merge())
                self.settle()
            if again in (1, 2):
                self.ctx.label("stopped-twice")
            if ses.taken_at_stop is None:
                self.ctx.fail("waiter", "stop() does not return")
            waiting = ses.waiting
            if waiting:
                self.ctx.fail("waiter", "a read that was waiting does not end after stop()")
            self.leak_check("mleak")
            # everything that was taken is still delivered
            if ses.over != "end":
                for t in ses.tasks:
                    if not t.done():
                        ses.cancelled = True
                        t.cancel()
                self.settle()
                ses.cancelled = False
                for i in range(200):
                    if ses.over == "end":
                        break
                    self.spawn(ses.read_merge((i + ses.style) % 5))
                    self.settle()
                    if ses.waiting:
                        self.ctx.fail("waiter", "a read keeps waiting after stop()")
                        break
            for s in ses.sources:
                s.feed("msg", 0)
            self.settle()
            if ses.taken_at_stop is not None and ses.taken() != ses.taken_at_stop:
                self.ctx.fail("after", "messages were taken from a source after stop()")
            for i in range(3):
                ses.over = ""
                t = self.spawn(ses.read_merge(i))
                self.settle()
                if not t.done() or ses.over != "end":
                    self.ctx.fail("waiter", "a stopped merge does not report its stop on every read")
            ses.ended = True
            self.leak_check("mleak")
        else:  # drop
            ses.cancelled = True
            for t in ses.tasks:
                t.cancel()
            self.settle()
            self.ctx.label("dropped")
            ses.ended = True
            for t in self.mytasks:
                if t.done() and not t.cancelled():
                    t.exception()
            ses.tasks.clear()
            self.mytasks = [t for t in self.mytasks if not t.done()]
            del t
            ses.merger = None
            for s in self.sources:
                for la in s.lanes:
                    for k, v in la.fed:
                        if k != "msg":
                            v.__traceback__ = v.__context__ = None  # the frames hold the merge
            if self.loop.eager:
                gc.collect()  # the frames of eager tasks keep their callers, in cycles
            self.settle()
            if ses.over != "end":
                for s in ses.sources:
                    for la in s.lanes:
                        la.slack = 1000
            self.leak_check("mleak")
            self.drain(lost_ok=True)
        self.session = None

    def finish(self) -> None:
        """The session is over: nothing is left behind."""
        ses = self.session
        if ses is None:
            return
        if not ses.ended and ses.kind == "select":
            if ses.it is not None and ses.style % 2 and not ses.waiting:
                pass
            self.exit("cancel")
        self.settle()
        if ses.kind == "merge":
            if not ses.ended:
                if ses.over == "end":
                    self.settle()
                    self.leak_check("mleak")
                    self.ctx.label("merge-read-to-the-end")
                    ses.ended = True
                    self.session = None
                else:
                    self.finish_merge(pick(("stop", "drop"), ses.script[1]))
            return
        if not ses.ended:
            self.ctx.fail("leak", "a cancelled select loop does not end")
        for t in ses.tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()
        for s in ses.sources:
            s.sync()
        self.session = None
        self.leak_check("leak")
        if ses.over != "end":
            self.ctx.label("left")
            if any(s.avail for s in ses.sources):
                self.ctx.label("left-with-pending")
            if sum(1 for s in ses.sources if s.avail) > 1:
                self.ctx.label("left-with-several-pending")

    def drain(self, lost_ok: bool = False) -> None:
        """Read what is left directly from the sources."""
        for s in self.sources:
            t = self.spawn(self.read_source(s))
            self.settle()
            if s.avail:
                if not any(la.slack for la in s.lanes if la.avail):
                    self.ctx.fail("conserve", f"{s.undelivered()} item(s) of s{s.idx} are not delivered any more")
                for la in s.lanes:
                    if la.slack:
                        la.got = len(la.fed)
                        if self.rdy is not None and self.rdy[0] is s:
                            self.rdy = None
            for la in s.lanes:
                la.slack = 0
            if s.closed and not t.done():
                self.ctx.fail("conserve", f"s{s.idx} does not report its stop")
            t.cancel()
            self.settle()

    async def read_source(self, s: Source) -> None:
        while True:
            try:
                value = await s.recv.receive()
                kind = "msg"
            except ReceiverStoppedError:
                if not s.exhausted and not any(la.slack for la in s.lanes):
                    self.fail("conserve", f"s{s.idx} stopped early")
                return
            except Exception as exc:  # pylint: disable=broad-except
                kind, value = "err", exc
            if s.take(kind, value) is None:
                nxt = [la.fed[la.got] for la in s.lanes if la.avail]
                self.fail("conserve", f"s{s.idx} delivered {value!r}, expected one of {nxt!r}")
                return
            self.delivered += 1
            if self.rdy is not None and self.rdy[1] is value:
                self.rdy = None

    # --- driver --------------------------------------------------------------------
    def op(self, code: str, a: int, b: int, c: int) -> None:
        src = pick(self.sources, a)
        if code == "feed":
            for i in range(1 + c % 3):
                src.feed("msg", b + i)
        elif code == "feedmany":
            for i in range(1 + b):
                src.feed("msg", c + i)
        elif code == "err":
            src.feed("err", b)
        elif code == "rdy":
            src.feed("rdy", b)
        elif code == "close":
            if c % 2:
                src.close(b)
        elif code == "step":
            self.step(1 + a % 4)
        elif code == "settle":
            self.rest()
        elif code == "advance":
            self.advance(1 + a % 2)
            self.at_rest()
        elif code == "start":
            conf = pick(self.case["confs"], a)
            self.start(b, conf)
        elif code == "exit":
            if self.session is not None and not self.session.ended:
                self.exit(pick(("stop", "drop"), b))
        elif code == "read2":
            ses = self.session
            if ses is not None and ses.kind == "merge" and not ses.ended and not ses.stop_called and ses.shared_ok:
                self.ctx.label("second-reader")
                ses.shared = True
                ses.tasks.append(self.spawn(ses.read_merge(b % 2)))
        self.raise_failure()

    def run_out(self) -> None:
        for _ in range(400):
            self.rest()
            if self.loop.next_timer() is None:
                break
            self.advance(1)

    def body(self) -> None:
        case = self.case
        kinds = []
        for k in case["kinds"]:
            kind = self.kinds[k % len(self.kinds)]
            if kind == "event" and "event" in kinds:
                kind = "scripted"
            kinds.append(kind)
        self.sources = [Source(self, i, k) for i, k in enumerate(kinds)]
        for k in kinds:
            self.ctx.label(f"kind-{k}")
        bag = case["bag"]
        if case["early"]:
            self.start(0, case["confs"][0])
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        end = case["end"]
        if end % 2:
            # let the session run to its end
            for s in self.sources:
                for i in range(2):
                    s.close(i)
            self.run_out()
            ses = self.session
            if ses is not None and ses.kind == "select" and not ses.ended:
                self.ctx.fail("late", "all receivers have stopped but the select loop does not end")
        self.finish()
        self.raise_failure()
        if end % 4 >= 2:
            # read what is left with yet another loop
            self.max_feed = 0
            self.start(0, pick(case["confs"], end))
            if self.session is not None:
                self.session.exit_how = "none"
            self.run_out()
            self.finish()
        self.max_feed = 0
        self.drain()
        for s in self.sources:
            if s.merger is not None:
                self.spawn(s.merger.stop())
        self.settle()
        for s in self.sources:
            s.merger = None
        self.leak_check("leak")
        self.raise_failure()
        if self.delivered > 3:
            self.ctx.label("delivered-3+")
        if self.max_bypass >= 1:
            self.ctx.label(f"bypass-{self.max_bypass}")
