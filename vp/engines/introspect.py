"""What objects tell about themselves, and that asking them has no effect.

Every program is run twice: once only checking the attributes against a model, and once
with everything (attributes, len(), str() and repr() of all objects) read all the time,
after every iteration of the event loop and from within callbacks. Both runs must have
the same outcomes.
"""

from __future__ import annotations

import asyncio
import contextlib
import logging
import random
from collections import deque
from datetime import timedelta
from typing import Any

from frequenz.channels import Anycast, Broadcast, ReceiverStoppedError, SelectError, Selected, SenderError, merge, select, selected_from
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

from ..core import Ctx, FalsyError, Sim, make_msg, pick, texc
from ..fakewatch import FakeFS
from .mux import Scripted

NAMES = ("c", "", "a%sb%d", "{x} {0}", "ünï", "'\"\\", "name with\nlines")
KINDS = ("anycast", "broadcast", "event", "timer", "watcher", "merge", "map")
BASE = "frequenz.channels"


class Formatting(logging.Handler):
    """Formats all log records."""

    def __init__(self, sim: IntroSim) -> None:
        super().__init__(0)
        self.sim = sim

    def handle(self, record: logging.LogRecord) -> Any:
        try:
            record.getMessage()
        except BaseException as exc:  # pylint: disable=broad-except
            self.sim.fail("raises", f"formatting a log message raised {texc(exc)}")
        return True


class Obj:
    """A receiver, what belongs to it, and the model of its state."""

    def __init__(self, sim: IntroSim, idx: int, kind: int, a: int, b: int, c: int) -> None:
        self.sim = sim
        self.idx = idx
        self.kind = pick(KINDS, kind)
        self.name = pick(NAMES, a)
        self.flag = False
        self.task: Any = None
        self.senders: list[Any] = []
        self.chan: Any = None
        self.policy: Any = None
        self.limit = (1 + b, 10, 1000 * b + c + 1)[(b % 8 > 5) + (b % 8 == 6)]
        self.named = True
        # model
        self.closed = False
        self.closing = False
        self.is_set = False
        self.is_stopped = False
        self.running = False
        self.started = False
        self.latest: list[Any] = []
        self.given: list[Any] = []  # all messages that were put in
        self.queues: list[deque[Any]] = []
        self.recvs: list[Any] = []
        self.tolerance = timedelta(microseconds=(0, 1, 250_000, 5)[c % 4])
        if self.kind == "anycast":
            # the documented default limit is 10
            self.chan = Anycast(name=self.name) if b % 8 == 7 else Anycast(name=self.name, limit=self.limit)
            self.recv: Any = self.chan.new_receiver()
        elif self.kind == "broadcast":
            self.resend = bool(c % 2)
            self.chan = Broadcast(name=self.name, resend_latest=self.resend)
            self.recv = self.add_receiver(None if c % 3 else "", self.limit)
        elif self.kind == "event":
            self.named = c % 4 != 0
            self.recv = Event(name=self.name) if self.named else Event()
        elif self.kind == "timer":
            self.policy = (
                TriggerAllMissed(), SkipMissedAndResync(), SkipMissedAndDrift(delay_tolerance=self.tolerance),
                SkipMissedAndDrift(),
            )[a % 4]
            self.interval = timedelta(microseconds=(1_000_000, 300_000, 999_999, 2_500_001)[b % 4])
            self.running = self.started = c % 3 != 0
            if (a + b) % 5 == 4:  # created before the loop runs
                with sim.loop.stopped():
                    self.recv = Timer(self.interval, self.policy, auto_start=self.running, loop=sim.loop)
            else:
                self.recv = Timer(self.interval, self.policy, auto_start=self.running)
        elif self.kind == "watcher":
            self.types = (frozenset(EventType), frozenset([EventType.CREATE]), frozenset())[c % 3]
            self.recv = FileWatcher([f"/{self.name or 'x'}{idx}{i}" for i in range(1 + b % 5)], self.types)
        else:
            self.subs = [Scripted(f"{self.name}{i}") for i in range(1 + b % 5)]
            if self.kind == "merge":
                self.recv = merge(*self.subs)
            else:
                self.recv = self.subs[0].map(self.function)
        if self.chan is not None:
            self.senders.append(self.chan.new_sender())
        sim.everything += [self.recv, self.chan, self.policy, *self.senders]

    def function(self, x: Any) -> Any:
        self.sim.inspect()
        return [x]

    def add_receiver(self, name: str | None, limit: int) -> Any:
        recv = self.chan.new_receiver(name=name, limit=limit)
        if name is not None and name not in repr(recv):
            self.sim.fail("state", f"the string representation {recv!r} of a receiver lacks its name {name!r}")
        queue: deque[Any] = deque(maxlen=limit)
        if self.resend and self.latest and not self.closed:
            queue.append(self.latest[-1])
        self.queues.append(queue)
        self.recvs.append(recv)
        self.sim.everything.append(recv)
        return recv

    def took(self) -> None:
        """A message was consumed from the first receiver."""
        self.flag = False
        if self.kind == "broadcast":
            if not self.queues[0]:
                self.sim.fail("state", "a broadcast receiver delivered more than it held")
            else:
                self.queues[0].popleft()
        elif self.kind == "event":
            self.is_set = False

    def verify(self) -> None:
        """Compare with the model."""
        want: list[tuple[str, Any, Any]] = []
        o = self.chan
        if o is not None:
            want.append(("name", o.name, self.name))
            if self.name not in str(o) and repr(self.name)[1:-1] not in str(o):
                self.sim.fail("state", f"the string representation {str(o)!r} of {self.kind} lacks its name")
            if not self.closing or self.closed:
                want.append(("is_closed", o.is_closed, self.closed))
        if self.kind == "anycast":
            want.append(("limit", o.limit, self.limit))
        elif self.kind == "broadcast":
            want.append(("resend_latest", o.resend_latest, self.resend))
            for recv, q in zip(self.recvs, self.queues):
                want.append(("len()", len(recv), len(q)))
        elif self.kind == "event":
            r = self.recv
            want += [("is_set", r.is_set, self.is_set), ("is_stopped", r.is_stopped, self.is_stopped)]
            if self.named:
                want.append(("name", r.name, self.name))
            elif not (isinstance(r.name, str) and r.name):
                self.sim.fail("state", f"the name of an event without one is {r.name!r}")
        elif self.kind == "timer":
            r = self.recv
            want += [("interval", r.interval, self.interval), ("is_running", r.is_running, self.running)]
            if r.missed_tick_policy is not self.policy:
                want.append(("missed_tick_policy", r.missed_tick_policy, self.policy))
            if r.loop is not self.sim.loop:
                want.append(("loop", r.loop, self.sim.loop))
            if isinstance(self.policy, SkipMissedAndDrift):
                tol = self.tolerance if self.sim.case["objs"][self.idx][1] % 4 == 2 else timedelta(0)
                want.append(("delay_tolerance", self.policy.delay_tolerance, tol))
        elif self.kind == "watcher":
            want.append(("event_types", self.recv.event_types, self.types))
        for name, got, expected in want:
            if got != expected or type(got) is not type(expected):
                self.sim.fail("state", f"{name} of {self.kind} is {got!r} instead of {expected!r}")


class IntroSim(Sim):
    """Interprets a case."""

    CODES = ("recv", "put", "settle", "recv", "put", "step", "ready", "consume", "stop", "cancel", "advance", "select",
             "newrecv", "sync", "reset", "block", "drop")

    def __init__(self, case: dict[str, Any], ctx: Ctx, curious: bool) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.curious = curious
        self.fs = FakeFS()
        self.everything: list[Any] = []
        self.kept: list[tuple[Any, Any, Any]] = []
        self.out: list[tuple[int, str, str]] = []
        self.epoch = 0
        self.n = 0
        self.selecting: Any = None
        self.looks = 0
        self.unhandled: Any = None
        self.pending = False  # reads are about to start timers

    # --- looking ---------------------------------------------------------------
    def inspect(self) -> None:
        """Look at everything."""
        if not self.curious:
            return
        self.looks += 1
        for o in self.everything:
            if o is None:
                continue
            try:
                if not isinstance(str(o), str) or not isinstance(repr(o), str):
                    self.fail("raises", f"str() or repr() of a {type(o).__name__} returned something else")
                for attr in ("name", "limit", "is_closed", "is_set", "is_stopped", "is_running", "interval", "loop",
                             "missed_tick_policy", "delay_tolerance", "resend_latest", "event_types"):
                    getattr(o, attr, None)
                if isinstance(o, type(self).sized):
                    len(o)
                if isinstance(o, Selected):
                    exc = o.exception
                    assert isinstance(o.was_stopped, bool)
                    with contextlib.suppress(type(exc) if exc is not None else ()):
                        o.message  # pylint: disable=pointless-statement
            except BaseException as exc:  # pylint: disable=broad-except
                self.fail("raises", f"looking at a {type(o).__name__} raised {texc(exc)}")
                return
        self.verify_items()

    sized: Any = ()

    def verify_items(self) -> None:
        for sel, message, exc in self.kept:
            if sel.exception is not exc or sel.was_stopped is not isinstance(exc, ReceiverStoppedError):
                self.fail("state", f"exception or was_stopped of an item changed: {sel!r}")
            try:
                value = sel.message
            except BaseException as raised:  # pylint: disable=broad-except
                if raised is not exc:
                    self.fail("state", f"the message of an item raises {texc(raised)} instead of {texc(exc)}")
            else:
                if exc is not None or value is not message:
                    self.fail("state", f"the message of an item became {value!r}")

    def verify(self) -> None:
        self.inspect()
        for o in self.objs:
            if not (self.pending and o.kind == "timer") and self.unhandled is None:
                o.verify()
        self.verify_items()

    def step(self, n: int = 1) -> int:
        done = 0
        while done < n and self.loop.step():
            done += 1
            if self.curious:
                self.inspect()
            self.raise_failure()
        return done

    def settle(self) -> None:
        for _ in range(3000):
            if not self.step():
                break
        super().settle()

    def rest(self) -> None:
        self.settle()
        self.pending = False
        self.epoch += 1
        self.verify()
        self.raise_failure()

    def note(self, what: str, value: Any) -> None:
        if isinstance(value, BaseException):
            # messages may contain addresses
            cause = type(value.__cause__).__name__
            text = f"{type(value).__name__} from {cause}"
            self.everything.append(value)
        else:
            text = repr(value)
        self.ctx.log(f"{what}: {text}")
        self.out.append((self.epoch, what, text))

    # --- tasks -----------------------------------------------------------------
    async def read(self, o: Obj, style: int) -> None:
        what = f"read {o.idx}"
        if o.kind == "timer" and not o.started:
            o.started = o.running = True
        try:
            if style == 0:
                value = await o.recv.receive()
            elif style == 1:
                value = await anext(o.recv)
            elif style == 2:
                async for value in o.recv:
                    break
                else:
                    self.note(what, "end")
                    return
            else:
                if not await o.recv.ready():
                    o.flag = False
                    self.note(what, "end")
                    return
                o.flag = True
                if style == 3:
                    self.verify()
                    value = o.recv.consume()
                else:
                    self.note(what, "ready")
                    self.verify()
                    return
            o.took()
            self.note(what, value)
            if type(value).__name__ == "Event":
                self.everything.append(value)
        except asyncio.CancelledError:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            self.note(what, exc)
        self.verify()

    async def send(self, o: Obj, value: Any) -> None:
        try:
            if o.kind == "broadcast" and not o.closed:
                for q in o.queues:
                    q.append(value)
                o.latest.append(value)
            await o.senders[0].send(value)
            self.note(f"send {o.idx}", "sent")
        except asyncio.CancelledError:
            raise
        except SenderError as exc:
            self.note(f"send {o.idx}", exc)
        self.verify()

    async def close(self, o: Obj) -> None:
        o.closing = True
        await o.chan.close()
        o.closed = True
        o.latest.clear()
        self.note(f"close {o.idx}", "closed")
        self.verify()

    async def loop_over(self, objs: list[Obj], budget: int, skip: int) -> None:
        try:
            await self.loop_items(objs, budget, skip)
        except asyncio.CancelledError:
            raise
        except SelectError as exc:
            sel, self.unhandled = self.unhandled, None
            for o in objs:
                if sel is not None and selected_from(sel, o.recv) and sel.exception is None:
                    o.took()
            self.note("select", exc)
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("raises", f"a select loop which looks at its items raised {texc(exc)}")

    async def loop_items(self, objs: list[Obj], budget: int, skip: int) -> None:
        for o in objs:
            if o.kind == "timer" and not o.started:
                o.started = o.running = True
        async for sel in select(*(o.recv for o in objs)):
            if self.curious and budget % 2:
                # selected_from() marks the item as handled, looking at it does not
                self.everything.append(sel)
                self.inspect()
            if budget == skip:
                self.unhandled = sel
                continue
            for o in objs:
                if selected_from(sel, o.recv):
                    exc = sel.exception
                    message = None
                    if exc is None:
                        message = sel.message
                        o.took()
                        if o.kind in ("anycast", "broadcast", "merge") and not any(message is x for x in o.given):
                            self.fail("state", f"the message of an item is {message!r}, which was never sent")
                    self.everything.append(sel)
                    self.kept.append((sel, message, exc))
                    self.note(f"select {o.idx}", exc if exc is not None else message)
            self.verify()
            budget -= 1
            if not budget:
                break

    # --- driver ----------------------------------------------------------------
    def live(self, o: Obj) -> bool:
        if self.selecting is not None and not self.selecting.done():
            return True
        return o.task is not None and not o.task.done()

    def put(self, o: Obj, b: int) -> None:
        self.n += 1
        value = make_msg(b, self.n)
        o.given.append(value)
        if o.chan is not None:
            self.spawn(self.send(o, value))
        elif o.kind == "event":
            if not o.is_stopped:
                o.recv.set()
                o.is_set = True
        elif o.kind == "watcher":
            mine = [w for w in self.fs.watchers if w.covers(f"/{o.name or 'x'}{o.idx}0/y")]
            if mine and not mine[0].buffer:
                self.fs.change({(1 + b % 3, f"/{o.name or 'x'}{o.idx}0/{self.n}")})
        elif o.kind in ("merge", "map"):
            if b % 4 == 3:
                pick(o.subs, b).put("err", (ValueError, FalsyError)[self.n % 2](self.n))
            elif not pick(o.subs, b).closed:
                pick(o.subs, b).put("msg", value)

    def stop(self, o: Obj, c: int) -> None:
        if o.chan is not None:
            if not o.closing:
                self.spawn(self.close(o))
        elif o.kind == "event":
            o.recv.stop()
            o.is_stopped = True
        elif o.kind == "timer":
            self.settle()
            self.pending = False
            o.recv.stop()
            o.started = True
            o.running = False
        elif o.kind in ("merge", "map"):
            if c % 2 and o.kind == "merge":
                self.spawn(o.recv.stop())
            else:
                pick(o.subs, c).close()
        elif o.kind == "watcher":
            self.settle()
            for w in self.fs.watchers:
                if w.covers(f"/{o.name or 'x'}{o.idx}0/y"):
                    w.ended = True
                    w.wake()

    def op(self, code: str, a: int, b: int, c: int) -> None:
        o = pick(self.objs, a)
        if code == "recv":
            if not self.live(o):
                self.pending = True
                o.task = self.spawn(self.read(o, b % 4))
        elif code == "ready":
            if not self.live(o):
                self.pending = True
                o.task = self.spawn(self.read(o, 4))
        elif code == "consume":
            if o.flag and not self.live(o):
                try:
                    value: Any = o.recv.consume()
                    o.took()
                except Exception as exc:  # pylint: disable=broad-except
                    value = exc
                    o.flag = False
                self.note(f"consume {o.idx}", value)
                self.verify()
        elif code == "put":
            for i in range(1 + c % 3):
                self.put(o, b + i)
        elif code == "stop":
            if c < 4:
                self.stop(o, c)
        elif code == "sync":  # several state changes without the loop running in between
            if o.kind == "event" and not o.is_stopped:
                o.recv.set()
                o.is_set = True
                self.inspect()
                if not self.live(o):
                    o.recv.consume()
                    o.took()
            elif o.kind == "broadcast" and o.queues[0] and not self.live(o):
                self.note(f"sync {o.idx}", o.recv.consume())
                o.took()
        elif code == "reset":
            if o.kind == "timer":
                self.settle()
                self.pending = False
                o.recv.reset(start_delay=timedelta(seconds=(0, 0.5)[b % 2]))
                o.flag = False
                o.started = o.running = True
        elif code == "newrecv":
            if o.kind == "broadcast" and len(o.recvs) < 5:
                o.add_receiver(None if b % 2 else "second", 1 + c)
            elif o.chan is not None:
                self.everything.append(o.chan.new_sender())
        elif code == "drop":
            if o.kind == "broadcast" and len(o.recvs) > 1:
                gone = o.recvs.pop()
                o.queues.pop()
                self.everything[:] = [x for x in self.everything if x is not gone]
                del gone
        elif code == "cancel":
            if self.live(o):
                self.settle()
            if self.live(o):
                t = self.selecting if self.selecting is not None and not self.selecting.done() else o.task
                t.cancel()
                self.rest()
        elif code == "select":
            if not any(self.live(x) for x in self.objs):
                self.pending = True
                self.selecting = self.spawn(self.loop_over(self.objs[a % len(self.objs):], 1 + b, c))
        elif code == "advance":
            self.rest()
            self.loop.advance_to(self.loop.time() + 0.3 * (1 + b))
            self.obeyed()
        elif code == "block":
            self.settle()
            self.loop.block(0.7 * (1 + b % 3))
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + b % 3)
        self.inspect()
        self.raise_failure()
        self.verify()
        self.raise_failure()

    def body(self) -> None:
        logger = logging.getLogger(BASE)
        handler = Formatting(self)
        logger.addHandler(handler)
        logger.propagate = False
        logging.disable(logging.NOTSET)
        old = logger.level
        logger.setLevel(1)
        try:
            with self.fs.installed():
                self.inside()
        finally:
            logging.disable(logging.CRITICAL)
            logger.removeHandler(handler)
            logger.setLevel(old)

    def inside(self) -> None:
        case = self.case
        self.objs: list[Obj] = []
        events = 0
        for i, (kind, a, b, c) in enumerate(case["objs"]):
            self.objs.append(Obj(self, i, kind, a, b, c))
        sized = {type(r) for o in self.objs for r in o.recvs}
        IntroSim.sized = tuple(sized)
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        for o in self.objs:
            if o.task is not None:
                o.task.cancel()
        if self.selecting is not None:
            self.selecting.cancel()
        self.rest()
        for o in self.objs:  # what is left
            for style in (0, 1, 2, 0):
                if not self.live(o):
                    self.pending = True
                    o.task = self.spawn(self.read(o, style))
                    self.rest()
            o.task.cancel()
            self.rest()
        self.out.append((self.epoch, "tasks", str(len(self.loop.live_tasks()))))


class Dummy:
    """As big as most objects of the library."""


def settled(case: dict[str, Any], plain: IntroSim, curious: IntroSim) -> bool:
    """Whether both kinds of runs always have the same outcome, whatever the addresses of objects are.

    Orders that depend on addresses are fine (which of several ready receivers comes first, say).
    """
    rnd = random.Random(1)
    for _ in range(12):
        dummies = [Dummy() for _ in range(400)]
        rnd.shuffle(dummies)
        del dummies[rnd.randrange(300):]
        for first in (plain, curious):
            again = IntroSim(case, Ctx(frozenset()), first.curious)
            again.run()
            if again.out != first.out:
                return False
    return True


def run(case: dict[str, Any], ctx: Ctx) -> None:
    plain = IntroSim(case, ctx, False)
    plain.run()
    curious = IntroSim(case, ctx, True)
    curious.run()
    if plain.out != curious.out and settled(case, plain, curious):
        i = next((i for i, (x, y) in enumerate(zip(plain.out, curious.out)) if x != y), min(len(plain.out), len(curious.out)))
        ctx.fail("interference", f"outcome {i} is {curious.out[i:i + 1]} after looking at everything, {plain.out[i:i + 1]} without")
    ctx.label(*(f"kind-{o.kind}" for o in plain.objs))
    if len(plain.out) >= 5:
        ctx.label("outcomes-5+")
    if curious.looks > 20:
        ctx.label("looks-20+")
    if plain.kept:
        ctx.label("select")
