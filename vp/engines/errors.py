"""What is raised, by whom and why: stopped receivers of all nestings, closed channels, select items."""

from __future__ import annotations

import asyncio
import contextlib
from typing import Any

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    ChannelError,
    Error,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    SenderError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)

from ..core import Ctx, Sim, make_msg, pick, texc
from ..fakewatch import FakeFS
from .tree import Node, Tree


def causes(exc: BaseException) -> list[BaseException]:
    """The chain of explicit causes."""
    chain: list[BaseException] = []
    cur = exc.__cause__
    while cur is not None and len(chain) < 50:
        chain.append(cur)
        cur = cur.__cause__
    return chain


class ErrorSim(Sim):
    """Interprets a case."""

    CODES = ("feed", "recv", "close", "err", "select", "settle", "send", "step", "shut", "poke", "advance", "recv")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.fs = FakeFS()
        self.trees: list[Tree] = []
        self.chans: list[tuple[Any, list[Any], list[Any]]] = []
        self.closing: set[int] = set()
        self.shut: set[int] = set()
        self.readers: dict[int, Any] = {}
        self.selecting: Any = None
        self.unhandled: Any = None
        self.kept: list[tuple[Any, Any]] = []
        self.pending_sends: set[int] = set()
        self.nsends = 0
        self.now = 0
        self.stops = 0

    # --- oracles ---------------------------------------------------------------
    def check_stop(self, node: Node, exc: BaseException, how: str, exact: bool) -> None:
        """The documented error of a stopped receiver."""
        what = f"{how} of a stopped {node.kind} raised {texc(exc)}"
        self.stops += 1
        self.ctx.log(what)
        if not isinstance(exc, ReceiverStoppedError) or not isinstance(exc, ReceiverError) or not isinstance(exc, Error):
            self.fail("type", what)
            return
        if exc.receiver is not node.recv and (exact or not any(exc.receiver is x for x in node.origins)):
            self.fail("origin", f"{what}, naming {exc.receiver!r}")
        if node.chan is not None:
            self.ctx.label("channel-cause")
            self.check_closed(node.chan, causes(exc), what)
        if not all(x.closed for x in node.leaves):
            self.fail("early", f"{what}, which is not stopped")

    def check_closed(self, chan: Any, chain: list[BaseException], what: str) -> None:
        found = [x for x in chain if isinstance(x, ChannelClosedError)]
        if not found:
            self.fail("cause", f"{what}, caused by {[texc(x) for x in chain]}")
            return
        err = found[-1]
        if err.channel is not chan or not isinstance(err, ChannelError) or not isinstance(err, Error):
            self.fail("cause", f"{what}, caused by {texc(err)} of {err.channel!r}")

    def outcome(self, tree: Tree, kind: str, value: Any, how: str) -> None:
        if tree.take(kind, value) is None:
            self.fail("item", f"{how} gave {kind} {value!r}, expected one of {tree.expected()}")

    # --- tasks -----------------------------------------------------------------
    async def read(self, tree: Tree, node: Node, style: int) -> None:
        """Read the root of a tree, or any node of it that is stopped."""
        recv = node.recv
        how = ("receive()", "anext()", "async for", "consume()")[style % 4]
        try:
            if style % 4 == 0:
                self.outcome(tree, "msg", await recv.receive(), how)
            elif style % 4 == 1:
                self.outcome(tree, "msg", await anext(recv), how)
            elif style % 4 == 2:
                async for msg in recv:
                    self.outcome(tree, "msg", msg, how)
                    return
                self.stops += 1
                if not all(x.closed for x in node.leaves):
                    self.fail("early", f"{how} ended for a {node.kind} which is not stopped")
            else:
                if not await recv.ready():
                    with contextlib.suppress(ReceiverStoppedError):
                        recv.consume()  # as often as one likes
                self.outcome(tree, "msg", recv.consume(), how)
        except asyncio.CancelledError:
            raise
        except StopAsyncIteration:
            self.stops += 1
            if style % 4 != 1:
                self.fail("type", f"{how} raised StopAsyncIteration")
        except BaseException as exc:  # pylint: disable=broad-except
            if isinstance(exc, ReceiverStoppedError) and style % 4 != 2:
                if style % 4 == 1:
                    self.fail("type", f"{how} raised {texc(exc)}")
                self.check_stop(node, exc, how, exact=style % 4 == 0)
            else:
                self.ctx.label("passed-on")
                self.outcome(tree, "err", exc, how)

    async def send(self, ci: int, si: int, n: int) -> None:
        chan, senders, _ = self.chans[ci]
        sender = senders[si]
        self.nsends += 1
        me = self.nsends
        self.pending_sends.add(me)
        was_shut = ci in self.shut
        try:
            await sender.send(make_msg(n, me))
            if was_shut:
                self.fail("type", "send() on a closed channel returned")
        except asyncio.CancelledError:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            what = f"send() raised {texc(exc)}"
            self.ctx.log(what)
            self.ctx.label("send-failed", "send-failed-waiting" if not was_shut else "send-failed-at-once")
            if ci not in self.closing:
                self.fail("early", f"{what} although the channel is open")
            if not isinstance(exc, SenderError) or not isinstance(exc, Error):
                self.fail("type", what)
                return
            if exc.sender is not sender:
                self.fail("origin", f"{what}, naming {exc.sender!r}")
            if not isinstance(exc.__cause__, ChannelClosedError):
                self.fail("cause", f"{what}, caused by {texc(exc.__cause__)}")
            else:
                self.check_closed(chan, [exc.__cause__], what)
        finally:
            self.pending_sends.discard(me)

    async def shutter(self, ci: int) -> None:
        self.closing.add(ci)
        await self.chans[ci][0].close()
        self.shut.add(ci)

    async def select_loop(self, trees: list[Tree], budget: int, ignore: int) -> None:
        """A select() loop that keeps its items."""
        sel: Any = None
        try:
            async for sel in select(*(t.root for t in trees)):
                if ignore and budget == 1:
                    self.unhandled = sel
                    for t in self.trees:
                        if t not in trees:
                            selected_from(sel, t.root)
                    continue
                mine = [t for t in trees if selected_from(sel, t.root)]
                if len(mine) != 1:
                    self.fail("item", "select() does not tell where the item is from")
                    return
                tree = mine[0]
                self.kept.append((sel, tree))
                self.inspect(sel, tree, first=True)
                budget -= 1
                if budget <= 0 and not ignore:
                    return
        except asyncio.CancelledError:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            if self.unhandled is None:
                self.fail("type", f"select() raised {texc(exc)}")
                return
            self.ctx.label("unhandled")
            if not isinstance(exc, UnhandledSelectedError) or not isinstance(exc, SelectError) or not isinstance(exc, Error):
                self.fail("type", f"an unhandled item raised {texc(exc)}")
            elif exc.selected is not self.unhandled:
                self.fail("origin", f"an unhandled item raised {texc(exc)} naming {exc.selected!r}")
            self.resolve([t for t in trees if selected_from(self.unhandled, t.root)])
            return
        if self.unhandled is not None:
            self.fail("type", "an unhandled item raised nothing")

    def resolve(self, trees: list[Tree]) -> None:
        """Account for the unhandled item."""
        sel, self.unhandled = self.unhandled, None
        for t in trees:
            if sel.was_stopped:
                if any(sel.exception.receiver is x for x in t.top.origins):
                    self.inspect(sel, t, first=True)
                    return
            elif sel.exception is not None:
                if t.take("err", sel.exception):
                    self.inspect(sel, t, first=False)
                    return
            elif t.take("msg", sel.message):
                self.inspect(sel, t, first=False)
                return
        self.fail("item", f"the unhandled item {sel!r} is nobody's")

    def inspect(self, sel: Any, tree: Tree, first: bool) -> None:
        """Look at an item, again and again."""
        exc = sel.exception
        if sel.was_stopped is not isinstance(exc, ReceiverStoppedError):
            self.fail("select", f"was_stopped is {sel.was_stopped!r} with {exc!r}")
        for _ in range(2):
            try:
                value = sel.message
            except BaseException as raised:  # pylint: disable=broad-except
                if exc is None or raised is not exc:
                    self.fail("select", f"message raised {texc(raised)}, the exception is {exc!r}")
            else:
                if exc is not None:
                    self.fail("select", f"message returned {value!r} despite {texc(exc)}")
                if first:
                    self.outcome(tree, "msg", value, "select()")
                    first = False
        if exc is not None and sel.was_stopped:
            self.check_stop(tree.top, exc, "select()", exact=False)
            self.ctx.label("select-stop")
        elif exc is not None:
            self.ctx.label("select-error")
            if first:
                self.outcome(tree, "err", exc, "select()")
        if sel.exception is not exc:
            self.fail("select", "the exception of an item changed")

    # --- driver ----------------------------------------------------------------
    def busy(self, i: int) -> bool:
        t = self.readers.get(i)
        return (t is not None and not t.done()) or (self.selecting is not None and not self.selecting.done())

    def rest(self) -> None:
        self.settle()
        self.ctx.check(not self.pending_sends or any(
            i not in self.shut and isinstance(c[0], Anycast) for i, c in enumerate(self.chans)
        ), "stuck", "a send() waits although all channels are closed")

    def close_leaf(self, leaf: Any) -> None:
        if leaf.closed:
            return
        if leaf.kind == "timer":
            self.settle()
        leaf.close()
        if leaf.kind == "timer" and leaf.closed:
            self.settle()

    def op(self, code: str, a: int, b: int, c: int) -> None:
        ti = a % len(self.trees)
        tree = self.trees[ti]
        leaf = pick(tree.leaves, b)
        if code == "feed":
            for i in range(1 + c % 2):
                leaf.feed("msg", c + i)
        elif code == "err":
            leaf.feed("err", c)
        elif code == "close":
            self.close_leaf(leaf)
        elif code == "recv":
            if not self.busy(ti):
                self.readers[ti] = self.spawn(self.read(tree, tree.top, b))
        elif code == "poke":
            node = pick(tree.nodes, b)
            self.rest()  # the tree still holds the node until it notices the stop
            if not self.busy(ti) and all(x.exhausted for x in node.leaves):
                self.readers[ti] = self.spawn(self.read(tree, node, c))
                self.rest()
                self.ctx.check(self.readers[ti].done(), "stuck", f"a read of a stopped {node.kind} waits")
        elif code == "select":
            if not any(self.busy(i) for i in range(len(self.trees))):
                k = 1 + a % len(self.trees)
                self.selecting = self.spawn(self.select_loop(self.trees[-k:], 1 + b, c % 3 == 0))
        elif code == "send":
            if self.chans:
                ci = a % len(self.chans)
                for i in range(1 + c % 3):
                    self.spawn(self.send(ci, (b + i) % len(self.chans[ci][1]), c))
        elif code == "shut":
            if self.chans and c % 2:
                self.spawn(self.shutter(a % len(self.chans)))
        elif code == "advance":
            self.settle()
            self.now += 1
            for t in self.trees:
                for x in t.leaves:
                    if x.kind == "timer" and not x.closed:
                        x.fed.append(("msg", None))
            self.loop.advance_to(self.now + 1e-5)
            self.obeyed()
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + a % 3)
        self.raise_failure()

    def body(self) -> None:
        with self.fs.installed():
            self.inside()

    def inside(self) -> None:
        case = self.case
        self.trees = [Tree(self, spec, self.fs, first=i * 10) for i, spec in enumerate(case["specs"])]
        for kind, limit, ns in case["chans"]:
            chan: Any = Anycast(name="c", limit=1 + limit) if kind else Broadcast(name="c")
            recvs = [chan.new_receiver()]
            self.chans.append((chan, [chan.new_sender() for _ in range(1 + ns)], recvs))
        for t in self.trees:
            self.ctx.label(*(f"leaf-{x.kind}" for x in t.leaves))
            if t.nmaps:
                self.ctx.label("map")
            if t.mergers:
                self.ctx.label("merge")
        if case["empty"]:
            self.no_merge()
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        self.finish()

    def no_merge(self) -> None:
        try:
            merge()
        except ValueError as exc:
            if isinstance(exc, Error):
                self.fail("type", "merge() raised a library error")
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("type", f"merge() raised {texc(exc)}")
        else:
            self.fail("type", "merge() accepted no receivers")
        self.raise_failure()

    def finish(self) -> None:
        end = self.case["end"]
        for i, (chan, senders, recvs) in enumerate(self.chans):
            self.spawn(self.shutter(i))
            self.step(end % 3)
        self.rest()
        self.ctx.check(not self.pending_sends, "stuck", "a send() waits although the channel is closed")
        for i, (chan, senders, _) in enumerate(self.chans):
            for si in range(len(senders)):
                self.spawn(self.send(i, si, end))
            late = Node(chan.new_receiver(), "late receiver", (), chan, [])
            if isinstance(chan, Broadcast):
                self.spawn(self.read(self.trees[0], late, 4 * end))
        self.rest()
        self.ctx.check(not self.pending_sends, "stuck", "a send() waits although the channel is closed")
        if self.selecting is not None and not self.selecting.done():
            self.selecting.cancel()
        for t in self.readers.values():
            t.cancel()
        self.settle()
        if self.unhandled is not None:
            self.resolve()
        if end % 3 == 0:  # stop while they wait
            self.selecting = self.spawn(self.select_loop(self.trees, 10_000, False))
            self.settle()
            self.ctx.label("stopped-while-selecting")
        for ti, t in enumerate(self.trees):
            for x in t.leaves:
                if not x.closed:
                    if not self.busy(ti):  # file watches are only active while they are read
                        self.readers[ti] = self.spawn(self.read(t, t.top, end))
                        self.settle()
                    self.close_leaf(x)
                    self.settle()
        self.raise_failure()
        for ti, t in enumerate(self.trees):
            for _ in range(300):
                if t.exhausted:
                    break
                if not self.busy(ti):
                    self.readers[ti] = self.spawn(self.read(t, t.top, end))
                self.rest()
            if self.selecting is not None:
                self.ctx.check(self.selecting.done(), "stuck", "select() does not end with its receivers")
            # every node, in every style, again and again
            for i in range(len(t.nodes) * 4):
                node = pick(t.nodes, (i + end) if end % 2 else -(i + end))
                n = self.stops
                task = self.spawn(self.read(t, node, i // len(t.nodes) + end))
                self.rest()
                self.ctx.check(task.done() and self.stops > n, "stuck", f"a stopped {node.kind} does not report its stop")
        for sel, t in self.kept:
            self.inspect(sel, t, first=False)
        self.raise_failure()


def run(case: dict[str, Any], ctx: Ctx) -> None:
    sim = ErrorSim(case, ctx)
    sim.run()
    if sim.stops > 6:
        ctx.label("stops-7+")
