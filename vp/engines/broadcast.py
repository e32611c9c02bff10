"""Programs over one broadcast channel, compared with an exact model."""

from __future__ import annotations

import asyncio
import gc
import weakref
from collections import deque
from dataclasses import dataclass, field
from typing import Any

from frequenz.channels import (
    Broadcast,
    ChannelClosedError,
    ReceiverStoppedError,
    SenderError,
    merge,
    select,
    selected_from,
)

from ..core import Ctx, Hostile, Plain, Sim, is_unique, make_msg, pick, texc, yields


def token(msg: Any) -> Any:
    """What identifies a message in the model, without keeping it alive."""
    if isinstance(msg, (Plain, Hostile)):
        return msg.n
    if isinstance(msg, BaseException):
        return msg.args[0]
    if isinstance(msg, list):
        return msg[0]
    return repr(msg)


@dataclass(eq=False)
class RModel:
    """The model of one receiver."""

    obj: Any
    kind: str
    limit: int
    q: deque[Any] = field(default_factory=deque)
    flag: bool = False
    reads: int = 0
    stopped: bool = False
    dropped: int = 0
    got: int = 0


class BroadcastSim(Sim):
    """Interprets a case."""

    CODES = ("send", "recv", "step", "settle", "consume", "ready", "new", "close", "cancel",
             "drop", "toggle", "flood", "wrap", "reads", "race")

    def __init__(self, case: dict[str, Any], ctx: Ctx, *, allow: frozenset[str]) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.allow = allow
        self.rs: list[RModel] = []
        self.tasks: list[asyncio.Task[Any]] = []
        self.refs: dict[int, Any] = {}
        self.nmsg = 0
        self.nsent = 0
        self.pending_sends = 0
        self.closing = False
        self.closed = False
        self.latest: Any = None
        self.has_latest = False
        self.orphans: list[Any] = []
        self.ncancel = 0
        self.ndropped_recv = 0

    # --- bookkeeping ---------------------------------------------------------------
    def new_msg(self, kind: int) -> tuple[Any, Any]:
        n = self.nmsg
        self.nmsg += 1
        msg = make_msg(kind, n)
        if isinstance(msg, (Plain, Hostile)):
            self.refs[n] = weakref.ref(msg)
        elif is_unique(msg):
            self.refs[n] = lambda m=msg: m
        return msg, token(msg)

    def same(self, msg: Any, tok: Any) -> bool:
        if token(msg) != tok:
            return False
        return not isinstance(tok, int) or self.refs[tok]() is msg

    def delivered(self, r: RModel, msg: Any) -> None:
        r.flag = False
        r.got += 1
        self.ctx.log(f"{r.kind}{self.rs.index(r) if r in self.rs else '?'} got {msg!r}")
        if r.stopped:
            self.fail("close", f"{msg!r} was delivered after the stop")
        if not r.q:
            self.fail("stream", f"{msg!r} was delivered, nothing was expected")
            return
        want = r.q.popleft()
        if not self.same(msg, want):
            self.fail("stream", f"{msg!r} was delivered, expected {want!r} then {list(r.q)[:5]}")

    def stop_seen(self, r: RModel, how: str) -> None:
        self.ctx.log(f"{r.kind} stopped ({how})")
        r.stopped = True
        if not self.closing:
            self.fail("close", f"stop reported ({how}) on an open channel")
        if r.q:
            self.fail("close", f"stop reported ({how}) with {len(r.q)} unread messages")

    # --- actors --------------------------------------------------------------------
    async def send_one(self, si: int, kind: int) -> bool:
        msg, tok = self.new_msg(kind)
        was_closed = self.closed
        if not self.closing:
            for r in self.rs:
                if r.obj is None:
                    continue
                if len(r.q) == r.limit:
                    r.q.popleft()
                    r.dropped += 1
                r.q.append(tok)
            self.latest, self.has_latest = tok, True
            self.nsent += 1
        self.ctx.log(f"send {msg!r}")
        self.pending_sends += 1
        try:
            await self.senders[si].send(msg)
        except asyncio.CancelledError:
            raise
        except SenderError as exc:
            if not self.closing:
                self.fail("close", f"send failed on an open channel: {exc}")
            if not isinstance(exc.__cause__, ChannelClosedError):
                self.fail("close", f"wrong cause of a send error: {texc(exc.__cause__)}")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"send() raised {texc(exc)}")
            return False
        finally:
            self.pending_sends -= 1
        if was_closed:
            self.fail("close", f"send({msg!r}) succeeded after close()")
        if self.orphans:
            del msg
            self.check_orphans()
        return True

    def check_orphans(self) -> None:
        """The messages that only dropped receivers held must be gone by now."""
        alive = {t for r in self.rs if r.obj is not None for t in r.q} | {self.latest}
        toks, self.orphans = self.orphans, []
        if any(r.kind in ("select", "merge") for r in self.rs):
            return  # a select loop or a merge may keep the last message it took
        for t in toks:
            if t in alive or self.refs[t]() is None:
                continue
            # finished tasks keep the frames of the exceptions they ended with
            self.tasks = [x for x in self.tasks if not x.done()]
            gc.collect()
            if self.refs[t]() is not None:
                self.fail("leak", f"message {t} of a dropped receiver is still held after a send")
            return

    async def sender(self, si: int, kind: int, count: int, gap: int) -> None:
        for i in range(count):
            if not await self.send_one(si, kind + i * (kind // 8)):
                break
            await yields(gap)

    async def read_one(self, r: RModel, style: int, gap: int) -> bool:
        r.reads += 1
        counted = True
        try:
            if style in (0, 1):
                msg = await (r.obj.receive() if style == 0 else anext(r.obj))
                r.reads -= 1
                counted = False
                self.delivered(r, msg)
                return True
            for _ in range(2 if style == 4 else 1):
                active = await r.obj.ready()
                if not active:
                    r.reads -= 1
                    counted = False
                    self.stop_seen(r, "ready")
                    return False
                r.flag = True
                if not r.q and not self.closing:
                    self.fail("stream", "ready without any message")
            r.reads -= 1
            counted = False
            if style == 5:
                return True
            if style == 3:
                await yields(gap)
            if r.obj is not None and r.flag and r.q:
                self.delivered(r, r.obj.consume())
            return True
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError:
            if counted:
                r.reads -= 1
                counted = False
            self.stop_seen(r, "receive")
            return False
        except StopAsyncIteration:
            if counted:
                r.reads -= 1
                counted = False
            self.stop_seen(r, "anext")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("unexpected", f"read style {style} raised {texc(exc)}")
            return False
        finally:
            if counted:
                r.reads -= 1

    async def reader(self, r: RModel, style: int, count: int, gap: int) -> None:
        for _ in range(count):
            if r.obj is None or not await self.read_one(r, style, gap):
                break
            await yields(gap)

    async def selecting(self, r: RModel, recv: Any, gap: int) -> None:
        """The receiver is only referenced by the select loop."""
        async for sel in select(recv):
            r.reads -= 1
            selected_from(sel, recv)
            if sel.was_stopped:
                self.stop_seen(r, "select")
            else:
                self.delivered(r, sel.message)
            del sel
            await yields(gap)
            r.reads += 1
        r.obj = None

    async def closer(self) -> None:
        self.closing = True
        self.ctx.log("close")
        try:
            await self.chan.close()
        except asyncio.CancelledError:
            # if the channel was closed nevertheless, then with all that belongs to it
            self.closing = self.closed = self.chan.is_closed
            raise
        except Exception as exc:  # pylint: disable=broad-except
            self.fail("close", f"close() raised {texc(exc)}")
            return
        self.closed = True

    # --- invariants ----------------------------------------------------------------
    def at_rest(self) -> None:
        self.ctx.check(
            self.pending_sends == 0, "block", f"{self.pending_sends} senders wait on a broadcast channel"
        )
        for i, r in enumerate(self.rs):
            if r.obj is None or not r.reads:
                continue
            if r.q:
                self.ctx.fail("stall", f"receiver {i} ({r.kind}) waits with {len(r.q)} unread messages")
            if self.closed:
                self.ctx.fail("close", f"receiver {i} ({r.kind}) stays blocked on a closed channel")
            self.ctx.label("blocked")

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    # --- driver --------------------------------------------------------------------
    def start(self, coro: Any) -> None:
        self.tasks.append(self.spawn(coro))

    def initial(self) -> deque[Any]:
        if self.chan.resend_latest and self.has_latest and not self.closing:
            self.ctx.label("resent")
            return deque([self.latest])
        return deque()

    def new(self, kind: str, lim: int) -> None:
        if len([r for r in self.rs if r.obj is not None]) >= 8:
            return
        limit = (1, 2, 3, 4, 8, 50, 50, 2)[lim] if lim < 8 else lim
        q = self.initial()
        if kind == "merge" or kind == "select":
            limit = 4000
        kw = {} if limit == 50 and lim == 5 else {"limit": limit}
        if lim % 2:
            kw["name"] = "n"
        if kind == "direct":
            obj = self.chan.new_receiver(**kw)
        elif kind == "map":
            obj = self.chan.new_receiver(**kw).map(lambda m: m)
        elif kind == "merge":
            obj = merge(self.chan.new_receiver(**kw))
        else:
            r = RModel(True, kind, limit, q, reads=1)
            self.rs.append(r)
            self.start(self.selecting(r, self.chan.new_receiver(limit=limit), lim % 2))
            return
        self.rs.append(RModel(obj, kind, limit, q))

    def live(self) -> list[RModel]:
        return [r for r in self.rs if r.obj is not None and r.kind != "select"]

    def op(self, code: str, a: int, b: int, c: int) -> None:
        if code == "send":
            self.start(self.sender(a % 2, b + 8 * (c % 2), 1 + c % 4, c // 4))
        elif code == "flood":
            self.start(self.sender(a % 2, b, 47 + c, 0))
        elif code == "recv" and self.live():
            self.start(self.reader(pick(self.live(), a), b % 5, 1 + c % 4, c // 4))
        elif code == "reads" and self.live():
            r = pick(self.live(), a)
            for i in range(2 + c % 2):
                self.start(self.reader(r, (b + i) % 6, 1, 0))
        elif code == "race" and "cancel" in self.allow and not any(r.kind == "select" for r in self.rs):
            # somebody gets woken up, and is cancelled within the next iterations
            live = [t for t in self.tasks if not t.done()]
            self.start(self.sender(a % 2, 0, 1 + c // 4, 0))
            self.step(c % 4)
            live = [t for t in live if not t.done()]
            if live:
                self.ncancel += 1
                live[b // 3 % len(live)].cancel()
            if a >= 5:
                self.rest()
        elif code == "ready" and self.live():
            self.start(self.reader(pick(self.live(), a), 5, 1, 0))
        elif code == "step":
            self.step(1 + a % 4)
        elif code == "settle":
            self.rest()
        elif code == "consume" and self.live():
            r = pick(self.live(), a)
            if r.obj is not None and r.flag and r.q:
                self.delivered(r, r.obj.consume())
        elif code == "new":
            self.new("direct", a)
        elif code == "wrap":
            self.new(("map", "merge", "select", "map")[b % 4], a)
        elif code == "close" and "close" in self.allow and c % 3 == 0:
            t = self.spawn(self.closer())
            if a % 2:
                self.step(1)
            if b % 4 == 3:
                t.cancel()
        elif code == "cancel" and "cancel" in self.allow:
            live = [t for t in self.tasks if not t.done()]
            if live:
                t = pick(live, a)
                if not any(r.kind == "select" for r in self.rs):
                    self.ncancel += 1
                    t.cancel()
        elif code == "drop" and "drop" in self.allow:
            cands = [r for r in self.live() if not r.reads]
            if cands:
                r = pick(cands, a)
                if r.kind in ("direct", "map"):
                    self.orphans += [t for t in r.q if isinstance(self.refs.get(t), weakref.ref)]
                r.obj = None
                self.ndropped_recv += 1
                self.ctx.log("drop")
        elif code == "toggle" and "toggle" in self.allow:
            self.chan.resend_latest = bool(a % 2)
        self.raise_failure()

    def body(self) -> None:
        self.chan: Any = Broadcast(name="b", resend_latest=bool(self.case["resend"]))
        self.senders = [self.chan.new_sender() for _ in range(2)]
        for i, lim in enumerate(self.case["limits"]):
            self.new("direct", lim)
        bag = self.case["bag"]
        for code, a, b, c in self.case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        self.finish()
        for r in self.rs:
            if r.dropped:
                self.ctx.label("overflow")
        if self.ncancel:
            self.ctx.label("cancelled")
        if self.ndropped_recv:
            self.ctx.label("dropped-receiver")
        if self.closed:
            self.ctx.label("closed")
        if sum(r.got > 0 for r in self.rs) > 1:
            self.ctx.label("several-receivers-served")
        if any(r.got > 0 for r in self.rs):
            self.ctx.label("delivered")
        if any(r.kind != "direct" and r.got for r in self.rs):
            self.ctx.label("wrapped")

    def finish(self) -> None:
        end = self.case["end"]
        if end % 2 and "close" in self.allow and not self.closed:
            self.start(self.closer())
            self.rest()
        # everything still unread can be read, and nothing else
        for i, r in enumerate(self.rs):
            while r.obj is not None and r.kind != "select" and r.q:
                n = len(r.q)
                self.start(self.reader(r, (end // 2 + i) % 5, 1, 0))
                self.rest()
                self.ctx.check(len(r.q) < n, "stream", "an unread message cannot be read")
        for i, r in enumerate(self.rs):
            if r.obj is None or r.kind == "select":
                continue
            got = r.got
            for again in range(2):
                t = self.spawn(self.reader(r, (end // 2 + again) % 5, 1, 0))
                self.settle()
                self.ctx.check(r.got == got, "stream", "an extra message was delivered")
                if self.closed:
                    self.ctx.check(t.done() and r.stopped, "close", "reading a closed channel does not stop")
                else:
                    self.ctx.check(not t.done(), "stream", "reading an empty open channel does not wait")
                    t.cancel()
                    self.settle()
        if self.closed:
            for si in range(2):
                t = self.spawn(self.send_one(si, 0))
                self.settle()
                self.ctx.check(t.done() and not t.result(), "close", "send() after close() did not fail")
            for r in self.rs:
                if r.obj is not None and r.kind == "select":
                    self.ctx.fail("close", "the select loop goes on after the close")


def run(case: dict[str, Any], ctx: Ctx, allow: frozenset[str]) -> BroadcastSim:
    sim = BroadcastSim(case, ctx, allow=allow)
    sim.run()
    return sim
