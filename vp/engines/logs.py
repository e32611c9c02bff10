"""What the library reports through the logging module: lost and delayed messages."""

from __future__ import annotations

import gc
import logging
import weakref
from typing import Any

from frequenz.channels import Anycast, Broadcast, ReceiverStoppedError, SenderError

from ..core import Ctx, Sim, make_msg, pick, texc

BASE = "frequenz.channels"


class Collector(logging.Handler):
    """What an application would see."""

    def __init__(self, sim: LogSim) -> None:
        super().__init__(0)
        self.sim = sim
        self.texts: list[str] = []

    def handle(self, record: logging.LogRecord) -> Any:
        if record.name != BASE and not record.name.startswith(BASE + "."):
            return True
        try:
            text = record.getMessage()
        except BaseException as exc:  # pylint: disable=broad-except
            self.sim.fail("log", f"formatting a log message raised {texc(exc)}")
            return True
        if record.levelno >= logging.WARNING:
            self.texts.append(text)
        return True


class Recv:
    """A receiver of a broadcast channel."""

    def __init__(self, sim: LogSim, chan: Chan, name: str | None, limit: int, mapped: bool) -> None:
        self.chan = chan
        self.name = name
        self.limit = limit
        self.raw: Any = chan.obj.new_receiver(name=name, limit=limit)
        self.obj: Any = self.raw.map(lambda x: (x,)) if mapped else self.raw
        self.owed = len(self.raw)  # the latest message may have been resent
        self.got = 0
        self.silenced = 0
        self.tasks: list[Any] = []

    def lost(self) -> int:
        return self.owed - self.got - len(self.raw)


class Chan:
    """A channel."""

    def __init__(self, idx: int, any_: bool, limit: int, resend: bool) -> None:
        self.idx = idx
        self.any = any_
        self.name = ("<c%d>", "c%d %%s", "{c%d}", "c%d/é")[(idx + limit) % 4] % idx
        self.obj: Any = Anycast(name=self.name, limit=limit) if any_ else Broadcast(name=self.name, resend_latest=resend)
        self.senders = [self.obj.new_sender(), self.obj.new_sender()]
        self.closed = False
        self.recvs: list[Recv] = []
        self.recv: Any = self.obj.new_receiver() if any_ else None
        self.blocked: dict[int, bool] = {}  # sends that were seen waiting at rest
        self.suspended = 0  # sends that ever gave up control
        self.seen = 0


class LogSim(Sim):
    """Interprets a case."""

    CODES = ("send", "recv", "send", "burst", "new", "settle", "step", "close", "cancel", "drop", "silence", "toggle", "recv")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.n = 0
        self.names = 0
        self.silent = False
        self.pending: dict[int, Chan] = {}
        self.tasks: list[Any] = []

    async def send(self, chan: Chan, who: int, count: int) -> None:
        for _ in range(count):
            self.n += 1
            key = self.n
            before = self.loop.iterations
            self.pending[key] = chan
            try:
                if not chan.any and not chan.closed:
                    for r in chan.recvs:
                        r.owed += 1
                await chan.senders[who].send(make_msg(key, key))
            except SenderError:
                return
            finally:
                del self.pending[key]
                if self.loop.iterations != before:
                    chan.suspended += 1

    async def read(self, r: Any, count: int) -> None:
        recv = r.recv if isinstance(r, Chan) else r.obj
        for _ in range(count):
            try:
                await recv.receive()
            except ReceiverStoppedError:
                return
            if isinstance(r, Recv):
                r.got += 1

    async def close(self, chan: Chan) -> None:
        chan.closed = True
        await chan.obj.close()

    def count(self, *names: str) -> int:
        return sum(all(x in t for x in names) for t in self.log.texts)

    def rest(self) -> None:
        self.settle()
        for key, chan in self.pending.items():
            if not chan.any:
                self.ctx.fail("log", "a send on a broadcast channel waits")
            chan.blocked.setdefault(key, self.silent)
        total = 0
        for chan in self.chans:
            if chan.any:
                n = self.count(chan.name)
                least = sum(not s for s in chan.blocked.values())
                most = chan.suspended + sum(c is chan for c in self.pending.values())
                if least:
                    self.ctx.label("announced")
                if n < least:
                    self.ctx.fail("log", f"{least} sends had to wait, only {n} warnings name the channel {chan.name}")
                if n > most:
                    self.ctx.fail("log", f"{n} warnings name the channel {chan.name}, but only {most} sends waited")
                total += n
                continue
            lost = 0
            for r in chan.recvs:
                lost += r.lost() - r.silenced
                if r.lost():
                    self.ctx.label("lost")
                if r.name is not None:
                    n = self.count(chan.name, r.name)
                    if n != r.lost() - r.silenced:
                        self.ctx.fail(
                            "log", f"receiver {r.name} of {chan.name} lost {r.lost() - r.silenced} messages, but {n} warnings name it")
            n = self.count(chan.name)
            if n != lost + chan.seen:
                self.ctx.fail("log", f"receivers of {chan.name} lost {lost + chan.seen} messages, but there were {n} warnings")
            total += n
        if len(self.log.texts) != total:
            self.ctx.fail("log", f"{len(self.log.texts) - total} warnings name no channel: {self.log.texts[-1]!r}")
        self.raise_failure()

    def new(self, chan: Chan, b: int, c: int) -> None:
        if chan.any or len(chan.recvs) >= 5:
            return
        self.names += 1
        name = None if b % 3 == 0 else f"<r{self.names}>"
        chan.recvs.append(Recv(self, chan, name, 1 + c % 5 if c < 7 else 50, b % 2 == 1))

    def op(self, code: str, a: int, b: int, c: int) -> None:
        chan = pick(self.chans, a)
        live = [t for t in self.tasks if not t.done()]
        if code == "send":
            self.tasks.append(self.spawn(self.send(chan, b % 2, 1 + c % 3)))
        elif code == "burst":
            self.tasks.append(self.spawn(self.send(chan, b % 2, 4 + c * 2)))
        elif code == "recv":
            if chan.any:
                self.tasks.append(self.spawn(self.read(chan, 1 + b % 4)))
            elif chan.recvs:
                r = pick(chan.recvs, b)
                t = self.spawn(self.read(r, 1 + c % 4))
                self.tasks.append(t)
                r.tasks.append(t)
        elif code == "new":
            self.new(chan, b, c)
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + a % 3)
        elif code == "close":
            if c < 2:
                self.tasks.append(self.spawn(self.close(chan)))
        elif code == "cancel":
            self.rest()
            if live:
                pick(live, b).cancel()
                self.rest()
        elif code == "toggle":
            if not chan.any:
                self.rest()
                chan.obj.resend_latest = not chan.obj.resend_latest
        elif code == "drop":
            self.rest()
            self.tasks[:] = [t for t in self.tasks if not t.done()]
            idle = [r for r in chan.recvs if all(t.done() for t in r.tasks)]
            if idle:
                r = pick(idle, b)
                lost, ref = r.lost() - r.silenced, weakref.ref(r.raw)
                r.tasks.clear()
                r.obj = r.raw = None
                gc.collect()
                if ref() is None:
                    chan.seen += lost
                    chan.recvs.remove(r)
                    self.ctx.label("dropped")
                else:  # something still refers to it, so it is still there
                    r.obj = r.raw = ref()
        elif code == "silence":
            # the application does not want to know
            self.rest()
            before = len(self.log.texts)
            lost = {id(r): r.lost() for x in self.chans for r in x.recvs}
            self.logger.setLevel(logging.ERROR if b % 2 else logging.CRITICAL)
            self.silent = True
            for k in range(1 + b % 3):
                self.tasks.append(self.spawn(self.send(chan, k % 2, 2 + c)))
            self.settle()
            for key, x in self.pending.items():
                x.blocked.setdefault(key, True)
            if len(self.log.texts) != before:
                self.ctx.fail("log", f"a warning in spite of the level of the logger {BASE}")
            for x in self.chans:
                for r in x.recvs:
                    r.silenced += r.lost() - lost[id(r)]
            self.ctx.label("silenced")
            self.silent = False
            self.logger.setLevel(1)
        self.raise_failure()

    def body(self) -> None:
        case = self.case
        self.logger = logging.getLogger(BASE)
        where = logging.getLogger((BASE, "frequenz", None)[case["where"] % 3])
        self.log = Collector(self)
        old = self.logger.level
        logging.disable(logging.NOTSET)
        self.logger.setLevel(1)
        where.addHandler(self.log)
        muted = logging.getLogger("asyncio")
        muted.disabled = True
        try:
            self.chans = [Chan(i, bool(k % 2), 1 + lim % 4, bool(k & 2)) for i, (k, lim) in enumerate(case["chans"])]
            for i, chan in enumerate(self.chans):
                for j in range(case["start"]):
                    self.new(chan, i + j, i + j + case["hseed"])
            bag = case["bag"]
            for code, a, b, c in case["ops"]:
                self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
            self.rest()
        finally:
            where.removeHandler(self.log)
            self.logger.setLevel(old)
            muted.disabled = False
            logging.disable(logging.CRITICAL)
