"""Programs over one anycast channel, and the invariants of their histories."""

from __future__ import annotations

import asyncio
from dataclasses import dataclass
from typing import Any

from frequenz.channels import (
    Anycast,
    ChannelClosedError,
    ReceiverStoppedError,
    SenderError,
)

from ..core import Ctx, Sim, is_unique, make_msg, pick, texc, yields


@dataclass(eq=False)
class Send:
    """One call to send()."""

    msg: Any
    task: int
    start: int
    end: int | None = None
    status: str = "pending"
    claims: int = 0


@dataclass(eq=False)
class Read:
    """One read operation in progress."""

    recv: int
    start: int


class AnycastSim(Sim):
    """Interprets a case."""

    CODES = ("send", "recv", "step", "settle", "consume", "ready", "new", "close", "cancel", "burst", "reads", "race", "flood", "drain")

    def __init__(self, case: dict[str, Any], ctx: Ctx, *, allow: frozenset[str]) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.allow = allow
        self.sends: list[Send] = []
        self.byid: dict[int, Send] = {}
        self.claims: list[tuple[int, Any]] = []
        self.flag: dict[int, int | None] = {}
        self.reads: list[Read] = []
        self.tasks: list[asyncio.Task[Any]] = []
        self.nmsg = 0
        self.close_start: int | None = None
        self.close_end: int | None = None
        self.stopped_at: int | None = None
        self.nconsumed = 0
        self.max_blocked_send = 0
        self.max_blocked_recv = 0
        self.ncancel = 0

    # --- bookkeeping ---------------------------------------------------------------
    def accepted(self) -> int:
        return sum(1 for s in self.sends if s.status == "ok")

    def held(self) -> int:
        return sum(1 for v in self.flag.values() if v is not None)

    def buffered(self) -> int:
        """Accepted messages that nobody claimed (exact at rest)."""
        return self.accepted() - self.nconsumed - self.held()

    def delivered(self, r: int, msg: Any) -> None:
        t = self.tick()
        claim = self.flag[r]
        if claim is not None:
            t = claim
            self.flag[r] = None
        self.nconsumed += 1
        self.claims.append((t, msg))
        self.ctx.log(f"r{r} got {msg!r}")
        if is_unique(msg):
            s = self.byid.get(id(msg))
            if s is None:
                self.fail("deliver", f"a message was invented: {msg!r}")
                return
            s.claims += 1
            if s.claims > 1:
                self.fail("deliver", f"{msg!r} was delivered {s.claims} times")
            if s.status in ("cancel", "err"):
                self.fail(
                    "failed-send",
                    f"{msg!r} was delivered, but its send() ended with {s.status}",
                )
        if self.stopped_at is not None and t > self.stopped_at:
            self.fail("close", f"{msg!r} was delivered after the channel had reported the stop")

    def stopped(self, r: int, how: str, exc: BaseException | None = None) -> None:
        t = self.tick()
        self.ctx.log(f"r{r} stopped ({how})")
        if self.close_start is None:
            self.fail("close", f"receiver reports a stop ({how}) on an open channel: {texc(exc)}")
        if self.stopped_at is None:
            self.stopped_at = t
        if self.flag[r] is not None:
            self.fail("close", "a receiver with a ready message reports a stop")

    # --- actors --------------------------------------------------------------------
    async def send_one(self, tno: int, si: int, kind: int) -> bool:
        msg = make_msg(kind, self.nmsg)
        self.nmsg += 1
        s = Send(msg, tno, self.tick())
        self.sends.append(s)
        if is_unique(msg):
            self.byid[id(msg)] = s
        late = self.close_end is not None
        try:
            await self.senders[si].send(msg)
        except asyncio.CancelledError:
            s.status = "cancel"
            s.end = self.tick()
            if s.claims:
                self.fail("failed-send", f"{msg!r} was delivered, but its send() was cancelled")
            raise
        except SenderError as exc:
            s.status = "err"
            s.end = self.tick()
            if self.close_start is None:
                self.fail("close", f"send failed on an open channel: {exc}")
            if not isinstance(exc.__cause__, ChannelClosedError):
                self.fail("close", f"wrong cause of a send error: {texc(exc.__cause__)}")
            if s.claims:
                self.fail("failed-send", f"{msg!r} was delivered, but its send() failed")
            self.ctx.label("send-failed-waiting" if not late else "send-failed-late")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            s.status = "err"
            self.fail("unexpected", f"send() raised {texc(exc)}")
            return False
        s.status = "ok"
        s.end = self.tick()
        self.ctx.log(f"t{tno} sent {msg!r}")
        if self.close_end is not None:
            self.fail("close", f"send({msg!r}) succeeded after close()")
        return True

    async def sender(self, tno: int, si: int, kind: int, count: int, gap: int) -> None:
        for _ in range(count):
            if not await self.send_one(tno, si, kind):
                break
            await yields(gap)

    async def read_one(self, r: int, style: int, gap: int) -> bool:
        recv = self.recvs[r]
        rd = Read(r, self.tick())
        self.reads.append(rd)
        try:
            if style == 0:
                self.delivered(r, await recv.receive())
            elif style == 1:
                self.delivered(r, await anext(recv))
            else:
                n = 2 if style == 4 else 1
                for i in range(n):
                    active = await recv.ready()
                    if not active:
                        if rd in self.reads:
                            self.reads.remove(rd)
                        self.stopped(r, "ready")
                        return False
                    if self.flag[r] is None:
                        self.flag[r] = self.tick()
                self.reads.remove(rd)
                if style == 5:
                    return True
                if style == 3:
                    await yields(gap)
                if self.flag[r] is not None:
                    self.delivered(r, recv.consume())
            return True
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            self.reads.remove(rd)
            self.stopped(r, "receive", exc)
            return False
        except StopAsyncIteration as exc:
            self.reads.remove(rd)
            self.stopped(r, "anext", exc)
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"read style {style} raised {texc(exc)}")
            return False
        finally:
            if rd in self.reads:
                self.reads.remove(rd)

    async def reader(self, r: int, style: int, count: int, gap: int) -> None:
        if style == 6:
            recv = self.recvs[r]
            rd = Read(r, self.tick())
            self.reads.append(rd)
            n = 0
            try:
                async for msg in recv:
                    self.reads.remove(rd)
                    self.delivered(r, msg)
                    n += 1
                    if n >= count:
                        return
                    await yields(gap)
                    self.reads.append(rd)
                self.reads.remove(rd)
                self.stopped(r, "async for")
            except asyncio.CancelledError:
                raise
            except BaseException as exc:  # pylint: disable=broad-except
                self.fail("unexpected", f"async for raised {texc(exc)}")
            finally:
                if rd in self.reads:
                    self.reads.remove(rd)
            return
        for _ in range(count):
            if not await self.read_one(r, style, gap):
                break
            await yields(gap)

    async def closer(self) -> None:
        if self.close_start is None:
            self.close_start = self.tick()
        self.ctx.log("close")
        try:
            await self.chan.close()
        except asyncio.CancelledError:
            # if the channel was closed nevertheless, then with all that belongs to it
            if self.chan.is_closed and self.close_end is None:
                self.close_end = self.tick()
            raise
        except Exception as exc:  # pylint: disable=broad-except
            self.fail("close", f"close() raised {texc(exc)}")
            return
        if self.close_end is None:
            self.close_end = self.tick()

    # --- invariants ----------------------------------------------------------------
    def always(self) -> None:
        inflight = {rd.recv for rd in self.reads} | {r for r, v in self.flag.items() if v is not None}
        out = self.accepted() - self.nconsumed
        if out > self.chan_limit + len(inflight):
            self.ctx.fail("capacity", f"{out} accepted messages outstanding with limit {self.chan_limit}")

    def at_rest(self) -> None:
        blocked_s = [s for s in self.sends if s.status == "pending"]
        blocked_r = [rd for rd in self.reads if self.flag[rd.recv] is None]
        buf = self.buffered()
        self.max_blocked_send = max(self.max_blocked_send, len(blocked_s))
        self.max_blocked_recv = max(self.max_blocked_recv, len(blocked_r))
        self.ctx.check(buf >= 0, "deliver", f"more messages delivered than accepted ({buf})")
        self.ctx.check(
            buf <= self.chan_limit, "capacity", f"{buf} messages buffered with limit {self.chan_limit}"
        )
        if self.close_end is not None:
            self.ctx.check(
                not blocked_s, "close", f"{len(blocked_s)} senders stay blocked on a closed channel"
            )
            self.ctx.check(
                not self.reads, "close", f"{len(self.reads)} receivers stay blocked on a closed channel"
            )
            if self.stopped_at is not None:
                self.ctx.check(buf == 0, "close", f"stop reported with {buf} messages undelivered")
            return
        if blocked_s and buf < self.chan_limit:
            self.ctx.fail(
                "stall", f"{len(blocked_s)} senders wait although only {buf}/{self.chan_limit} used"
            )
        if blocked_r and buf > 0:
            self.ctx.fail("stall", f"{len(blocked_r)} receivers wait although {buf} messages are available")

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    # --- driver --------------------------------------------------------------------
    def start_task(self, coro: Any) -> None:
        self.tasks.append(self.spawn(coro))

    def op(self, code: str, a: int, b: int, c: int) -> None:
        if code == "send":
            self.start_task(self.sender(len(self.tasks), a % len(self.senders), b, 1 + c % 4, c // 4))
        elif code == "burst":
            for _ in range(2 + a % 3):
                self.start_task(self.sender(len(self.tasks), b % len(self.senders), c, 1, 0))
        elif code == "recv":
            self.start_task(self.reader(a % len(self.recvs), b % 7, 1 + c % 4, c // 4))
        elif code == "ready":
            self.start_task(self.reader(a % len(self.recvs), 5, 1, 0))
        elif code == "reads":
            for i in range(2 + a % 2):
                self.start_task(self.reader((b + i * (c % 2)) % len(self.recvs), (b // 2 + i) % 6, 1, 0))
        elif code == "race" and "cancel" in self.allow:
            # somebody gets woken up, and is cancelled (or has company) within the next iterations
            live = [t for t in self.tasks if not t.done()]
            if c % 2:
                self.start_task(self.sender(len(self.tasks), c % len(self.senders), 0, 1 + c // 4, 0))
            else:
                self.start_task(self.reader(c // 2 % len(self.recvs), 0, 1 + c // 4, 0))
            self.step(a % 5)
            live = [t for t in live if not t.done()]
            if live:
                self.ncancel += 1
                self.ctx.log(f"cancel {b // 3 % len(live)} of {len(live)} waiting")
                live[b // 3 % len(live)].cancel()
            if a >= 5:
                self.rest()
        elif code == "flood":
            self.start_task(self.sender(len(self.tasks), a % len(self.senders), b, self.chan_limit + c - 2, c % 2))
        elif code == "drain":
            self.start_task(self.reader(a % len(self.recvs), b % 7, self.chan_limit + c - 2, c % 2))
        elif code == "step":
            self.step(1 + a % 4)
        elif code == "settle":
            self.rest()
        elif code == "consume":
            r = a % len(self.recvs)
            if self.flag[r] is not None:
                self.delivered(r, self.recvs[r].consume())
        elif code == "new":
            if b % 2 and len(self.recvs) < 5:
                self.flag[len(self.recvs)] = None
                self.recvs.append(self.chan.new_receiver())
            elif len(self.senders) < 5:
                self.senders.append(self.chan.new_sender())
        elif code == "close" and "close" in self.allow and c % 3 == 0:
            t = self.spawn(self.closer())
            if a % 2:
                self.step(1)
            if b % 4 == 3:
                t.cancel()
        elif code == "cancel" and "cancel" in self.allow:
            live = [t for t in self.tasks if not t.done()]
            if live:
                self.ncancel += 1
                self.ctx.log(f"cancel {a % len(live)} of {len(live)}")
                pick(live, a).cancel()
        self.raise_failure()
        self.always()

    def body(self) -> None:
        limit = self.case["limit"]
        if limit == 10 and self.case["hseed"] % 2:
            self.chan: Any = Anycast(name="c")  # the documented default
        else:
            self.chan = Anycast(name="c", limit=limit)
        self.chan_limit = limit
        self.senders = [self.chan.new_sender() for _ in range(self.case["ns"])]
        self.recvs = [self.chan.new_receiver() for _ in range(self.case["nr"])]
        self.flag.update({i: None for i in range(len(self.recvs))})
        bag = self.case["bag"]
        for code, a, b, c in self.case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        self.finish()
        self.judge()

    def finish(self) -> None:
        end = self.case["end"]
        if end % 2 and "close" in self.allow and self.close_start is None:
            self.start_task(self.closer())
            self.rest()
        guard = 200 + len(self.sends)
        while guard and self.failure is None:
            guard -= 1
            for r in range(len(self.recvs)):
                if self.flag[r] is not None:
                    self.delivered(r, self.recvs[r].consume())
            self.rest()
            if not any(s.status == "pending" for s in self.sends) and self.buffered() <= 0:
                break
            r = (end // 2 + guard) % len(self.recvs)
            self.start_task(self.reader(r, (end // 2) % 5, 1 + self.buffered() // 100, 0))
            self.rest()
        self.raise_failure()
        self.ctx.check(guard > 0, "deliver", "the channel could not be drained")
        if self.close_end is not None:
            for again in range(2):
                for r in range(len(self.recvs)):
                    before = self.nconsumed
                    t = self.spawn(self.reader(r, (again + end) % 4, 1, 0))
                    self.settle()
                    self.ctx.check(t.done(), "close", "a read of a closed channel blocks")
                    self.ctx.check(self.nconsumed == before, "close", "a drained channel delivers")
                for si in range(len(self.senders)):
                    n = len(self.sends)
                    t = self.spawn(self.sender(-1, si, 0, 1, 0))
                    self.settle()
                    self.ctx.check(
                        len(self.sends) > n and self.sends[n].status == "err",
                        "close", "send() on a closed channel did not fail",
                    )

    def judge(self) -> None:
        # exactly once
        for s in self.sends:
            if s.status == "ok" and is_unique(s.msg) and s.claims != 1:
                self.ctx.fail("deliver", f"{s.msg!r} was accepted but delivered {s.claims} times")
        for sample in (None, 0, ""):
            same = [s for s in self.sends if s.msg == sample and type(s.msg) is type(sample) and s.status == "ok"]
            got = [m for _, m in self.claims if type(m) is type(sample)]
            if len(got) != len(same):
                self.ctx.fail("deliver", f"{sample!r} was accepted {len(same)} times, delivered {len(got)}")
        # in order
        order = [m for _, m in sorted(self.claims, key=lambda x: x[0]) if is_unique(m)]
        latest_start = -1
        late: Any = None
        for m in order:
            s = self.byid[id(m)]
            assert s.end is not None
            if s.end < latest_start:
                self.ctx.fail("order", f"{late!r} was handed out before {m!r}, which was accepted first")
            if s.start > latest_start:
                latest_start, late = s.start, m
        if len(self.claims) >= 2 and len(self.tasks) >= 2:
            self.ctx.label("delivered-2+")
        if self.max_blocked_send:
            self.ctx.label("blocked-senders-2+" if self.max_blocked_send > 1 else "blocked-sender")
        if self.max_blocked_recv:
            self.ctx.label("blocked-receivers-2+" if self.max_blocked_recv > 1 else "blocked-receiver")
        if self.close_end is not None:
            self.ctx.label("closed")
        if self.ncancel:
            self.ctx.label("cancelled")
        if any(not is_unique(m) for _, m in self.claims):
            self.ctx.label("equal-messages")


def run(case: dict[str, Any], ctx: Ctx, allow: frozenset[str]) -> AnycastSim:
    sim = AnycastSim(case, ctx, allow=allow)
    sim.run()
    return sim
