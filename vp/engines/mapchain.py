"""map(): the same program run on a receiver, on a chain of maps over it and on the map of the composition."""

from __future__ import annotations

import asyncio
from typing import Any

from frequenz.channels import ReceiverError, ReceiverStoppedError, select, selected_from

from ..core import Ctx, Hostile, Sim, pick, texc
from ..fakewatch import FakeFS
from .tree import LEAVES, Leaf, Mapped


class FnError(Exception):
    """Raised by a mapping function."""


FUNCS = ("wrap", "wrap", "none", "zero", "false", "hostile", "identity", "raise-first", "raise-third", "raise-receiver",
         "exception", "key", "wrap")


class Fn:
    """One mapping function and the record of its calls."""

    def __init__(self, run: Run, tag: int, kind: str) -> None:
        self.run = run
        self.tag = tag
        self.kind = kind
        self.calls: list[tuple[Any, Any, BaseException | None]] = []

    def __call__(self, x: Any) -> Any:
        n = len(self.calls)
        result: Any = None
        exc: BaseException | None = None
        kind = self.kind
        if self.run.phase != "consuming" and not self.run.live():
            self.run.fail("early", f"f{self.tag} is called although nobody reads")
        if kind == "wrap":
            result = Mapped(self.tag, x)
        elif kind == "zero":
            result = 0
        elif kind == "false":
            result = False
        elif kind == "hostile":
            result = Hostile(n)
        elif kind == "identity":
            result = x
        elif kind == "exception":
            result = FnError("returned")
        elif kind == "raise-first" and n % 4 == 0 or kind == "raise-third" and n % 3 == 2:
            exc = FnError(self.tag, n)
        elif kind == "raise-receiver" and n % 2 == 0:
            exc = ReceiverError("from the function", self.run.leaf.recv)
        elif kind == "key" and n % 2:
            exc = KeyError(n)
        elif kind != "none":
            result = Mapped(self.tag, x)
        self.calls.append((x, result, exc))
        if exc is not None:
            raise exc
        return result

    def __len__(self) -> int:
        return 0  # functions may be falsy objects, too


class Run(Sim):
    """One execution."""

    CODES = ("feed", "recv", "settle", "ready", "step", "consume", "cancel", "advance", "err", "close", "feed", "recv",
             "recv")

    def __init__(self, case: dict[str, Any], ctx: Ctx, mode: str) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.mode = mode
        self.sim = self
        self.fs = FakeFS()
        self.epoch = 0
        self.phase = ""
        self.out: list[tuple[int, str, Any, list[Any]]] = []
        self.flag = False
        self.task: Any = None
        self.n = 0
        self.chains: list[list[Fn]] = []
        self.fns: list[Fn] = []
        self.views: list[Any] = []
        self.now = 0

    def next_item(self) -> int:
        self.n += 1
        return self.n

    def live(self) -> bool:
        return self.task is not None and not self.task.done()

    def ncalls(self) -> int:
        return sum(len(f.calls) for f in self.fns)

    # --- reading ---------------------------------------------------------------
    def outcome(self, view: int, kind: str, value: Any) -> None:
        """Something came out of a view."""
        self.flag = False
        chain = self.chains[view]
        new = [f.calls[self.seen.get(f.tag, 0):] for f in chain]
        for f in chain:
            self.seen[f.tag] = len(f.calls)
        self.ctx.log(f"[{self.mode}] view {view}: {kind} {value!r}")
        self.out.append((self.epoch, kind, value, [view, new]))
        if self.ncalls() != sum(self.seen.values()):
            self.fail("calls", "functions of another receiver were called")

    async def read(self, view: int, style: int) -> None:
        recv = self.views[view]
        try:
            if style == 0:
                self.outcome(view, "msg", await recv.receive())
            elif style == 1:
                self.outcome(view, "msg", await anext(recv))
            elif style == 2:
                async for msg in recv:
                    self.outcome(view, "msg", msg)
                    return
                self.outcome(view, "stop", None)
            elif style == 3:
                async for sel in select(recv):
                    if not selected_from(sel, recv):
                        self.fail("item", "select attributes the item to another receiver")
                    if sel.was_stopped:
                        self.outcome(view, "stop", None)
                    elif sel.exception is not None:
                        self.outcome(view, "err", sel.exception)
                    else:
                        self.outcome(view, "msg", sel.message)
                    return
                self.fail("item", "select() ended without an item")
            else:
                for _ in range(2):
                    before = self.ncalls()
                    active = await recv.ready()
                    if self.ncalls() != before:
                        self.fail("early", "ready() called a mapping function")
                    if not active:
                        self.outcome(view, "stop", None)
                        return
                    self.flag = True
                if style < 6:
                    self.consume(view)
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError as exc:
            if exc.receiver is not recv:
                self.fail("stop", f"the stop names {exc.receiver!r}")
            self.outcome(view, "stop", None)
        except StopAsyncIteration:
            self.outcome(view, "stop", None)
        except Exception as exc:  # pylint: disable=broad-except
            self.outcome(view, "err", exc)

    def consume(self, view: int) -> None:
        self.phase = "consuming"
        try:
            self.outcome(view, "msg", self.views[view].consume())
        except ReceiverStoppedError:
            self.outcome(view, "stop", None)
        except Exception as exc:  # pylint: disable=broad-except
            self.outcome(view, "err", exc)
        self.phase = ""

    # --- driver ----------------------------------------------------------------
    def rest(self) -> None:
        self.settle()
        self.epoch += 1
        if self.ncalls() != sum(self.seen.values()):
            self.fail("calls", "a function was called without its result being read")
        self.raise_failure()

    def start(self, view: int, style: int) -> None:
        if not self.live():
            self.task = self.spawn(self.read(view, style))

    def close(self) -> None:
        leaf = self.leaf
        if leaf.closed:
            return
        self.rest()
        leaf.close()

    def op(self, code: str, a: int, b: int, c: int) -> None:
        leaf = self.leaf
        view = a % len(self.views)
        if code == "feed":
            for i in range(1 + c % 3):
                leaf.feed("msg", b + i)
        elif code == "err":
            leaf.feed("err", b)
        elif code == "close":
            if c % 2:
                self.close()
        elif code == "recv":
            self.start(view, b % 6)
        elif code == "ready":
            self.start(view, 6)
        elif code == "consume":
            if self.flag and not self.live():
                self.consume(view)
        elif code == "cancel":
            if self.live():
                self.rest()
                if self.live():
                    self.task.cancel()
                    self.rest()
        elif code == "advance":
            for _ in range(1 + b % 2):
                self.rest()
                self.now += 1
                if leaf.kind == "timer" and not leaf.closed:
                    leaf.fed.append(("msg", None))
                self.loop.advance_to(self.now + 1e-5)
                self.obeyed()
                self.rest()
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + c % 3)
        self.raise_failure()

    def body(self) -> None:
        with self.fs.installed():
            self.inside()

    def inside(self) -> None:
        case = self.case
        self.leaf = Leaf(self, 0, pick(LEAVES, case["leaf"]), (), False)  # type: ignore[arg-type]
        self.tree = self  # what Leaf uses of a tree: next_item() and fs
        self.seen: dict[int, int] = {}
        tag = 0
        for i, codes in enumerate(case["chains"]):
            own = []
            for code in codes:
                tag += 1
                own.append(Fn(self, tag, pick(FUNCS, code)))
            self.fns += own
            branch = i > 0 and case["branch"] >> (i - 1) & 1  # another map over the previous map
            recv = self.views[-1] if branch and self.mode != "composed" else self.leaf.recv
            fns = [*self.chains[-1], *own] if branch else own
            if self.mode == "chain":
                for f in own:
                    recv = recv.map(f)
            elif self.mode == "composed" and fns:
                def composed(x: Any, fs: list[Fn] = fns) -> Any:
                    for f in fs:
                        x = f(x)
                    return x

                recv = recv.map(composed)
            self.chains.append(fns)
            self.views.append(recv)
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        if self.live():
            self.task.cancel()
            self.rest()
        if self.leaf.kind == "watcher" and not self.leaf.closed:
            self.start(0, 0)
            self.rest()
        self.close()
        self.rest()
        for i in range(60):
            self.start((i + case["end"]) % len(self.views), (case["end"] + i) % 6)
            self.rest()
            if self.live():
                self.fail("stop", "a read of a stopped receiver does not end")
            self.raise_failure()
            if self.out and self.out[-1][1] == "stop":
                break


def canon(value: Any) -> Any:
    """A message or error of the source, comparable between runs."""
    if value is None:
        return None
    n = getattr(value, "n", None)
    if n is not None:
        return type(value).__name__, n
    if isinstance(value, BaseException):
        return type(value).__name__, str(value)
    return repr(value)


def compare(ctx: Ctx, bare: Run, other: Run) -> None:
    """The mapped run follows from the bare one."""
    mode = other.mode
    if len(bare.out) != len(other.out):
        ctx.fail("item", f"{len(bare.out)} outcomes without map, {len(other.out)} with ({mode})")
    for i, ((ep, kind, value, (view, _)), (ep2, kind2, value2, (view2, calls))) in enumerate(zip(bare.out, other.out)):
        what = f"outcome {i} ({mode}), "
        if ep != ep2 or view != view2:
            ctx.fail("late", f"{what}comes at another moment: {ep} and {ep2}")
        fns = other.chains[view2]
        if kind == "stop" or kind == "err":
            if kind2 != kind or (kind == "err" and canon(value) != canon(value2)):
                ctx.fail("stop", f"{what}{kind} {texc(value)} became {kind2} {value2!r}")
            if any(calls):
                ctx.fail("calls", f"{what}functions called for a {kind}")
            continue
        arg: Any = None
        exc: BaseException | None = None
        for j, f in enumerate(fns):
            if exc is not None:
                if calls[j]:
                    ctx.fail("calls", f"{what}f{f.tag} called after another one had raised")
                continue
            if len(calls[j]) != 1:
                ctx.fail("calls", f"{what}f{f.tag} ({f.kind}) called {len(calls[j])} times")
            x, result, exc = calls[j][0]
            if (canon(x) != canon(value)) if j == 0 else (x is not arg):
                ctx.fail("calls", f"{what}f{f.tag} called with {x!r}")
            arg = result
        if exc is not None:
            ctx.label("function-raised")
            if kind2 != "err" or value2 is not exc:
                ctx.fail("item", f"{what}is {kind2} {value2!r} instead of {texc(exc)}")
        elif not fns:
            if kind2 != "msg" or canon(value2) != canon(value):
                ctx.fail("item", f"{what}is {kind2} {value2!r} instead of {value!r}")
        elif kind2 != "msg" or value2 is not arg:
            ctx.fail("item", f"{what}is {kind2} {value2!r} instead of {arg!r}")


def run(case: dict[str, Any], ctx: Ctx) -> None:
    runs = {}
    for mode in ("bare", "chain", "composed"):
        runs[mode] = Run(case, ctx, mode)
        runs[mode].run()
    compare(ctx, runs["bare"], runs["chain"])
    compare(ctx, runs["bare"], runs["composed"])
    out = runs["chain"].out
    ctx.label(f"leaf-{runs['bare'].leaf.kind}")
    mapped = [o for o in out if runs["chain"].chains[o[3][0]] and o[1] in ("msg", "err")]
    if len(mapped) >= 2:
        ctx.label("mapped-2+")
    if any(o[1] == "err" for o in runs["bare"].out):
        ctx.label("source-error")
    if any(len(c) > 1 for c in runs["chain"].chains):
        ctx.label("chained")
    if len(runs["chain"].views) > 1:
        ctx.label("views-2+")
