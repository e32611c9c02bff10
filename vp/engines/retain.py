"""What the library holds on to: messages, readers, tasks, and state that grows with history."""

from __future__ import annotations

import asyncio
import gc
import types
import weakref
from dataclasses import dataclass, field
from datetime import timedelta
from typing import Any

from hypothesis import strategies as st

from frequenz.channels import Anycast, Broadcast, ReceiverStoppedError, SenderError, merge, select, selected_from
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import FileWatcher
from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

from ..core import Ctx, Plain, Sim, pick, texc, yields
from ..fakewatch import FakeFS

LEAF = st.integers(0, 2).map(lambda k: [0, k])
EXPR = st.recursive(
    LEAF,
    lambda inner: st.one_of(
        inner.map(lambda x: [1, x]),
        st.lists(inner, min_size=1, max_size=3).map(lambda xs: [2, *xs]),
    ),
    max_leaves=4,
)


class Box:
    """What the map functions return."""

    __slots__ = ("inner", "__weakref__")

    def __init__(self, inner: Any) -> None:
        self.inner = inner


@dataclass(eq=False)
class Chan:
    """A channel and its bounds."""

    obj: Any
    any: bool
    limit: int
    sender: Any
    refs: list[Any] = field(default_factory=list)
    blocked: int = 0
    closed: bool = False
    stale: int = 0  # what receivers that were dropped since the last send may hold


@dataclass(eq=False)
class Reader:
    """An expression over new receivers of the channels."""

    obj: Any
    leaves: list[tuple[Chan, int, int]]  # channel, limit, merges above
    merges: int  # the number of their sources, all in all
    busy: int = 0
    over: bool = False


class RetainSim(Sim):
    """Interprets a case: messages and readers come and go."""

    CODES = ("send", "recv", "settle", "ready", "step", "cancel", "drop", "new", "select", "go", "send", "recv", "burst",
             "close")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.n = 0
        self.readers: list[Reader] = []
        self.mine: list[asyncio.Task[Any]] = []
        self.loops: list[tuple[list[Reader], Any]] = []
        self.gate: Any = None
        self.got = 0
        self.worst = 0

    # --- construction ----------------------------------------------------------
    def build(self, expr: Any, above: int, r: Reader) -> Any:
        if expr[0] == 0:
            chan = pick(self.chans, expr[1])
            limit = 0
            if chan.any:
                recv = chan.obj.new_receiver()
            else:
                limit = chan.limit
                recv = chan.obj.new_receiver(limit=limit)
            r.leaves.append((chan, limit, above))
            return recv
        if expr[0] == 1:
            return self.build(expr[1], above, r).map(Box)
        r.merges += len(expr) - 1
        return merge(*[self.build(x, above + 1, r) for x in expr[1:]])

    def new(self, expr: Any) -> None:
        if len(self.readers) < 5:
            r = Reader(None, [], 0)
            r.obj = self.build(expr, 0, r)
            self.readers.append(r)

    def run_task(self, coro: Any, *readers: Reader) -> Any:
        t = self.spawn(coro)
        for r in readers:
            r.busy += 1
            t.add_done_callback(lambda t, r=r: setattr(r, "busy", r.busy - 1))
        self.mine = [x for x in self.mine if not x.done()]
        self.mine.append(t)
        return t

    # --- actors ----------------------------------------------------------------
    async def send(self, chan: Chan, count: int) -> None:
        chan.blocked += 1
        try:
            for _ in range(count):
                if chan.closed:
                    break
                self.n += 1
                msg = Plain(self.n)
                chan.refs.append(weakref.ref(msg))
                await chan.sender.send(msg)
                chan.stale = 0
                del msg
        except asyncio.CancelledError:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            if not chan.closed:
                self.fail("unexpected", f"send() raised {texc(exc)}")
        finally:
            chan.blocked -= 1

    async def recv(self, r: Reader, style: int, count: int) -> None:
        try:
            for _ in range(count):
                if r.obj is None:
                    break
                if style == 0:
                    await r.obj.receive()
                elif style == 1:
                    await anext(r.obj)
                elif style == 2:
                    if not await r.obj.ready():
                        r.over = True
                        break
                    r.obj.consume()
                else:
                    r.over = not await r.obj.ready()
                    await yields(2)
                    continue
                self.got += 1
        except asyncio.CancelledError:
            raise
        except (ReceiverStoppedError, StopAsyncIteration):
            r.over = True
        except Exception as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"reading raised {texc(exc)}")

    async def loop_over(self, rs: list[Reader], gap: int) -> None:
        """A select loop; its body waits for the gate now and then."""
        n = 0
        async for sel in select(*[r.obj for r in rs]):
            for r in rs:
                if selected_from(sel, r.obj):
                    r.over = sel.was_stopped
                    break
            else:
                self.fail("unexpected", "a select item of nobody")
            self.got += 1
            n += 1
            del sel
            if gap and n % gap == 0:
                await self.gate.wait()

    # --- the oracle ------------------------------------------------------------
    def bound(self, chan: Chan) -> int:
        """How many messages of a channel the library may hold."""
        total = chan.blocked + chan.stale
        total += chan.limit if chan.any else 1  # the buffer or the latest message
        for r in self.readers:
            if r.obj is None:
                continue
            for c, limit, above in r.leaves:
                if c is chan:
                    total += limit + 2 * above + (1 if c.any else 0)
        for rs, t in self.loops:
            if not t.done() and any(c is chan for r in rs for c, _, _ in r.leaves):
                total += 1
        return total

    def drained_bound(self, chan: Chan) -> int:
        total = 0 if chan.any else 1
        if self.loop.eager and any(r.merges and any(c.closed for c, _, _ in r.leaves) for r in self.readers):
            # the traceback of an eager task's exception (a source that ended) refers to the frames of whoever
            # started the task, and a merge that waits may still refer to that task
            total += 100
        for rs, t in self.loops:
            if not t.done() and any(c is chan for r in rs for c, _, _ in r.leaves):
                total += 1
        return total

    def alive(self, chan: Chan) -> int:
        chan.refs = [x for x in chan.refs if x() is not None]
        return len(chan.refs)

    def foreign(self) -> list[Any]:
        mine = set(map(id, self.mine))
        return [t for t in self.loop.live_tasks() if id(t) not in mine]

    def tasks_bound(self) -> int:
        total = sum(r.merges for r in self.readers if r.obj is not None)
        return total + sum(len(rs) for rs, t in self.loops if not t.done())

    def check(self, bound: Any, when: str) -> None:
        self.mine = [x for x in self.mine if not x.done()]
        self.loops = [x for x in self.loops if not x[1].done()]
        for i, chan in enumerate(self.chans):
            b = bound(chan)
            if self.alive(chan) > b:
                gc.collect()
                self.settle()
            n = self.alive(chan)
            self.worst = max(self.worst, n)
            if n == b and n > 1:
                self.ctx.label("at-the-bound")
            if n > b:
                kind = "anycast" if chan.any else "broadcast"
                self.ctx.fail("held", f"{n} messages of {kind} channel {i} are held {when}, at most {b} need to be")
        tb = self.tasks_bound()
        if len(self.foreign()) > tb:
            gc.collect()
            self.settle()
            if len(self.foreign()) > tb:
                names = sorted(t.get_coro().__qualname__ for t in self.foreign())
                self.ctx.fail("tasks", f"{len(names)} background tasks {when}, at most {tb} are needed: {names}")

    def rest(self) -> None:
        self.settle()
        self.check(self.bound, "at rest")

    # --- driver ----------------------------------------------------------------
    def op(self, code: str, a: int, b: int, c: int) -> None:
        free = [r for r in self.readers if r.obj is not None and not r.busy]
        chan = pick(self.chans, a)
        if code == "send":
            self.run_task(self.send(chan, 1 + b % 3))
        elif code == "burst":
            self.run_task(self.send(chan, 4 + 3 * b))
        elif code == "recv" and free:
            r = pick(free, a)
            self.run_task(self.recv(r, b % 3, 1 + c), r)
        elif code == "ready" and free:
            r = pick(free, a)
            self.run_task(self.recv(r, 3, 1 + c), r)
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + a % 4)
        elif code == "cancel":
            live = [t for t in self.mine if not t.done()]
            if live:
                self.ctx.label("cancelled")
                pick(live, a).cancel()
        elif code == "drop" and free:
            r = pick(free, a)
            for ch, limit, above in r.leaves:
                ch.stale += limit + 2 * above + (1 if ch.any else 0)
            self.rest()  # nobody is being woken up for it
            if not r.busy:
                self.ctx.label("dropped")
                r.obj = None
                self.readers.remove(r)
            gc.collect()
            self.rest()
        elif code == "new":
            self.new(pick(self.case["exprs"], a))
        elif code == "select" and free:
            rs = free[: 1 + b % 3]
            t = self.run_task(self.loop_over(rs, c % 4), *rs)
            self.loops.append((rs, t))
            self.ctx.label("select")
        elif code == "go":
            self.gate.set()
            if a % 2:
                self.rest()
                self.gate.clear()
        elif code == "close" and c == 0:
            chan.closed = True
            self.run_task(chan.obj.close())
        self.raise_failure()

    def body(self) -> None:
        self.chans: list[Chan] = []
        for kind, lim in self.case["chans"]:
            limit = (1, 2, 3, 5)[lim % 4]
            obj: Any = Anycast(name="a", limit=limit) if kind % 2 else Broadcast(name="b", resend_latest=kind == 2)
            self.chans.append(Chan(obj, kind % 2 == 1, limit, obj.new_sender()))
        self.gate = asyncio.Event()
        self.gate.set()
        for expr in self.case["exprs"]:
            self.new(expr)
        bag = self.case["bag"]
        for code, a, b, c in self.case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.gate.set()
        self.rest()
        self.finish()

    def finish(self) -> None:
        # whatever can be read is read
        for _ in range(3):
            for r in self.readers:
                if not r.busy and not r.over:
                    self.run_task(self.recv(r, (self.case["end"]) % 3, 10_000), r)
            self.settle()
        if not all(r.busy or r.over for r in self.readers):
            return
        unread = {id(c) for c in self.chans} - {id(c) for r in self.readers for c, _, _ in r.leaves}
        if any(c.any and id(c) in unread for c in self.chans):
            self.chans = [c for c in self.chans if not (c.any and id(c) in unread)]
        for c in self.chans:
            c.stale = 0 if not c.stale else c.stale
        self.check(lambda c: self.drained_bound(c) + c.stale, "after everything was read")
        if self.got > 3:
            self.ctx.label("drained")
        self.supersede()

    def supersede(self) -> None:
        """Nobody reads the next message; what was read before is gone, the former latest message too."""
        for t in self.mine:
            if not any(t is x for _, x in self.loops):
                t.cancel()
            del t  # its exception refers to what it waited for
        self.settle()
        chans = [c for c in self.chans if not c.closed and not c.any]
        for c in chans:
            old, c.refs = c.refs, []
            self.run_task(self.send(c, 1))
            self.settle()
            c.refs = old
        if chans:
            self.ctx.label("superseded")
        was, self.chans = self.chans, chans
        self.check(lambda c: self.drained_bound(c) - 1 + c.stale, "after everything was read and the latest superseded")
        self.chans = [c for c in was if c.any and not c.closed]
        for c in self.chans:
            self.run_task(self.send(c, c.limit + 1))
            self.run_task(self.send(c, 3))
        self.settle()
        for c in self.chans:
            c.closed = True
            self.run_task(c.obj.close())
        self.settle()
        for _ in range(3):
            for r in self.readers:
                if not r.busy and not r.over:
                    self.run_task(self.recv(r, self.case["end"] % 3, 10_000), r)
            self.settle()
        if all(r.busy or r.over for r in self.readers):
            self.check(lambda c: self.drained_bound(c) + c.stale, "after a close and everything was read")


# --- growth --------------------------------------------------------------------------
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, types.FrameType,
        asyncio.AbstractEventLoop, types.MethodType, types.GetSetDescriptorType, property)


def weigh(roots: list[Any], stop: set[int]) -> int:
    """The number of objects reachable from the library's objects."""
    seen: dict[int, Any] = {}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or id(x) in stop or isinstance(x, SKIP):
            continue
        seen[id(x)] = x
        todo.extend(gc.get_referents(x))
    total = 0
    for x in seen.values():
        total += 1
        if isinstance(x, (list, tuple, dict, set, str, bytes)):
            total += len(x)
    return total


KINDS = ("anycast", "broadcast", "event", "timer", "merge", "map", "watcher", "broadcast-resend")
ROUNDS = ("message", "cancel", "ready", "select", "transient", "burst", "select-cancel", "error", "concurrent", "stop")


class GrowthSim(Sim):
    """Rounds that leave an object as it was, again and again."""

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.kind = KINDS[case["kind"] % len(KINDS)]
        self.n = 0
        self.fs = FakeFS()
        self.sender: Any = None
        self.chan: Any = None
        self.chan2: Any = None
        self.fails = False

    def make(self) -> list[Any]:
        k = self.kind
        lim = 1 + self.case["limit"]
        if k == "anycast":
            self.chan = Anycast(name="c", limit=lim)
            self.recv: Any = self.chan.new_receiver()
        elif k.startswith("broadcast"):
            self.chan = Broadcast(name="c", resend_latest=k != "broadcast")
            self.recv = self.chan.new_receiver(limit=lim)
        elif k == "event":
            self.recv = Event(name="e")
        elif k == "timer":
            policy = (TriggerAllMissed(), SkipMissedAndResync(), SkipMissedAndDrift())[self.case["limit"] % 3]
            self.recv = Timer(timedelta(seconds=1), policy)
        elif k == "watcher":
            self.recv = FileWatcher(["/x"])
        else:
            self.chan = Anycast(name="c", limit=lim) if self.case["limit"] % 2 else Broadcast(name="c")
            self.chan2 = Broadcast(name="d")
            self.recv = self.chan.new_receiver()
            if k == "map":
                self.recv = self.recv.map(self.func).map(Box)
            else:
                self.recv = merge(self.recv, self.chan2.new_receiver(), self.chan2.new_receiver().map(self.func))
        if self.chan is not None:
            self.sender = self.chan.new_sender()
        return [x for x in (self.recv, self.chan, self.chan2, self.sender) if x is not None]

    def func(self, msg: Any) -> Any:
        if self.fails:
            raise ValueError(msg)
        return Box(msg)

    def put(self) -> None:
        """Something to read."""
        self.n += 1
        if self.sender is not None:
            if self.chan2 is not None and self.n % 3:
                sender = self.chan2.new_sender()
            else:
                sender = self.chan.new_sender() if self.n % 2 else self.sender
            self.spawn(sender.send(Plain(self.n)))
        elif self.kind == "event":
            self.recv.set()
        elif self.kind == "timer":
            self.loop.advance_to(self.loop.time() + (1.0 if self.n % 4 else 2.5))
            self.obeyed()
        else:
            self.fs.change({(1 + self.n % 3, f"/x/{self.n}"), (1, f"/x/b{self.n}")})

    async def drain(self, style: int) -> None:
        """Read everything that is there."""
        budget = 50
        try:
            async with asyncio.timeout(0.25):
                while budget:
                    budget -= 1
                    try:
                        if style % 3 == 0:
                            await self.recv.receive()
                        elif style % 3 == 1:
                            await anext(self.recv)
                        else:
                            assert await self.recv.ready()
                            self.recv.consume()
                    except ValueError:
                        pass
        except TimeoutError:
            return

    async def selecting(self, others: list[Any], how: int) -> None:
        try:
            async with asyncio.timeout(0.25):
                async for sel in select(self.recv, *others):
                    for r in (self.recv, *others):
                        if selected_from(sel, r):
                            break
                    if how % 3 == 0:
                        break
                    if how % 3 == 1:
                        await yields(2)
        except TimeoutError:
            return

    def done(self, coro: Any) -> None:
        t = self.spawn(coro)
        self.advance(0.5)
        assert t.done()
        exc = None if t.cancelled() else t.exception()
        if exc is not None:
            self.ctx.fail("unexpected", f"a round ended with {texc(exc)}")

    def round(self, what: str, a: int) -> None:
        if what == "over":
            self.done(self.drain_over(a))
            return
        if what == "message":
            self.put()
            self.settle()
        elif what == "burst":
            for _ in range(3 + a):
                self.put()
        elif what in ("cancel", "concurrent"):
            # several tasks at a time only where that is allowed
            many = self.kind not in ("watcher", "merge", "map")
            ts = [self.spawn(self.recv.receive()) for _ in range((1 + a % 3) if many else 1)]
            self.settle()
            if what == "concurrent":
                self.put()
                self.step(a)
            for t in ts:
                t.cancel()
            self.settle()
            for t in ts:
                if not t.cancelled():
                    t.exception()
        elif what == "ready":
            self.put()
            t = self.spawn(self.recv.ready())
            self.settle()
            t.cancel()
            self.settle()
        elif what == "select":
            self.put()
            self.done(self.selecting([Event(name="o")], a))
        elif what == "select-cancel":
            t = self.spawn(self.selecting([], 2))
            self.settle()
            if a % 2:
                self.put()
                self.step(1 + a % 3)
            t.cancel()
            self.settle()
        elif what == "transient":
            # receivers and wrappers that come and go
            if self.chan is not None:
                extra = [self.chan.new_receiver(), self.chan.new_receiver().map(Box)]
                if a % 2:
                    extra.append(merge(self.chan.new_receiver()))
                senders = [self.chan.new_sender() for _ in range(3)]
                self.spawn(senders[a % 3].send(Plain(self.n)))
                del senders
                if a % 3 == 0:
                    ts = [self.spawn(x.receive()) for x in extra]
                    self.settle()
                    for t in ts:
                        t.cancel()
                    del ts, t
                self.settle()
                extra.clear()
                gc.collect()
                self.settle()
            self.put()
            self.settle()
        elif what == "error":
            self.fails = True
            self.put()
            self.put()
            self.done(self.drain(a))
            self.fails = False
        elif what == "stop" and self.kind == "timer":
            t = self.spawn(self.recv.ready())
            self.settle()
            self.recv.stop()
            self.settle()
            self.recv.reset()
        elif what == "stop" and self.kind == "anycast":
            # a send that has to wait is given up
            ts = [self.spawn(self.sender.send(Plain(k))) for k in range(self.case["limit"] + 3)]
            self.settle()
            for t in ts:
                t.cancel()
            self.settle()
        if self.kind == "timer" and (what == "concurrent" or a % 3 == 0):
            self.recv.reset()
        self.done(self.drain(a))

    def end(self) -> None:
        """The source ends."""
        self.ctx.label("over")
        if self.chan is not None:
            self.spawn(self.chan.close())
            if self.chan2 is not None:
                self.spawn(self.chan2.close())
        elif self.kind in ("event", "timer"):
            self.recv.stop()
        else:
            t = self.spawn(self.recv.ready())
            self.settle()
            self.fs.end()
            self.settle()
            assert t.done()
        self.done(self.drain_over(0))

    async def drain_over(self, how: int) -> None:
        """Everything one can do with a stopped receiver or a closed channel."""
        try:
            if how % 5 == 0:
                await self.recv.receive()
            elif how % 5 == 1:
                async for _ in self.recv:
                    pass
            elif how % 5 == 2:
                if await self.recv.ready():
                    self.fail("unexpected", "a stopped receiver is ready")
                self.recv.consume()
            elif how % 5 == 3:
                async for sel in select(self.recv):
                    assert selected_from(sel, self.recv) and sel.was_stopped
            elif self.sender is not None:
                await self.sender.send(Plain(self.n))
        except (ReceiverStoppedError, SenderError):
            pass

    def weight(self) -> int:
        self.settle()
        gc.collect()
        self.settle()
        return weigh(self.objs, self.stop)

    def body(self) -> None:
        with self.fs.installed():
            self.objs = self.make()
            self.stop = {id(self), id(self.loop), id(self.__dict__), id(self.case), id(self.fs)}
            script = [(ROUNDS[w % len(ROUNDS)], a) for w, a in self.case["rounds"]]

            def cycle(times: int) -> int:
                for _ in range(times):
                    for what, a in script:
                        self.round(what, a)
                return self.weight()

            if self.case["after"]:
                self.end()
                script = [("over", a) for _, a in script]
            counts = [cycle(2), cycle(2), cycle(self.case["times"])]
            counts.append(cycle(2 * self.case["times"]))
            self.ctx.log(f"{self.kind}: {counts}")
            for what, _ in script:
                self.ctx.label(f"round-{what}")
            self.ctx.label(f"growth-{self.kind}")
            if counts[3] > counts[1] + 6 and counts[3] > counts[2] + 6:
                self.ctx.fail("growth", f"a {self.kind} grows with use: {counts} objects after 2, 4, "
                              f"{4 + self.case['times']} and {4 + 3 * self.case['times']} rounds")


def run(case: dict[str, Any], ctx: Ctx) -> None:
    if case["mode"]:
        GrowthSim(case["growth"] | {"hseed": case["hseed"]}, ctx).run()
        ctx.nontrivial = True
        return
    case = dict(case, chans=case["chans"] or [[1, 0]], exprs=case["exprs"] or [[0, 0]])
    sim = RetainSim(case, ctx)
    sim.run()
    ctx.nontrivial = bool({"at-the-bound", "drained"} & ctx.labels)
