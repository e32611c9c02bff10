"""Programs over file watchers whose operating system part is controlled by the case."""

from __future__ import annotations

import asyncio
import gc
import pathlib
from typing import Any

from frequenz.channels import ReceiverStoppedError, select, selected_from
from frequenz.channels import event as event_module
from frequenz.channels.file_watcher import Event, EventType, FileWatcher

from ..core import Ctx, Sim, pick, texc, yields
from ..fakewatch import FakeFS, FakeNotify

NAMES = ("a", "b.txt", "dir/c", "dir/deep/d", "e e", "é", "x/../y", "..hidden", ".git/x", "d.pyc", "b~", "__pycache__/e.tmp", "#f#", "node_modules/.g.swp", ".DS_Store")
TYPES = (EventType.CREATE, EventType.MODIFY, EventType.DELETE)


class FS(FakeFS):
    def __init__(self, sim: WatchSim) -> None:
        super().__init__()
        self.sim = sim

    def fetched(self, watcher: FakeNotify, changes: set[tuple[int, str]]) -> None:
        model = self.sim.owner(watcher)
        batch = {(c, p) for c, p in changes if c in model.types}
        if len(batch) < len(changes):
            self.sim.ctx.label("filtered")
        if batch:
            model.due.append(batch)
            if len(batch) > 1:
                self.sim.ctx.label("batch-2+")


class Model:
    """One watcher and what it has to deliver."""

    def __init__(self, sim: WatchSim, idx: int, conf: list[int]) -> None:
        self.sim = sim
        self.idx = idx
        self.root = (f"/w{idx}", f"~/w{idx}", f" w{idx}", f"w{idx}", f"$HOME/../w{idx}*")[(0, 0, 1, 2, 3, 4)[(conf[1] + conf[2] + conf[3]) % 6]]
        sel = conf[0] % 9
        subset = (None, None, *[[t for i, t in enumerate(TYPES) if m >> i & 1] for m in range(7)])[sel]
        if subset is None:
            self.types = {t.value for t in TYPES}
        else:
            self.types = {t.value for t in subset}
        n = 1 + conf[1] % 3
        roots = [f"{self.root}/r{i}{('', ' ', '.tmp')[conf[3] % 3]}" for i in range(n)] if conf[1] % 2 else [self.root]
        self.paths = roots
        given: list[Any] = []
        for i, r in enumerate(roots):
            given.append((r, pathlib.Path(r), r + "/", pathlib.Path(r) / ".")[(conf[2] + i) % 4])
        if subset is None:
            self.fw: Any = FileWatcher(given)
        else:
            self.fw = FileWatcher(
                paths=given,
                event_types=(list, set, frozenset, tuple, iter, lambda s: s + s, lambda s: (t for t in s))[conf[3] % 7](
                    list(subset)
                ),
            )
        given.clear()  # the watcher keeps its own list
        self.due: list[set[tuple[int, str]]] = []
        self.ended = False
        self.waiting = 0
        self.flag = False
        self.got = 0
        self.stops = 0
        self.tasks: list[Any] = []
        self.session: Any = None  # a select loop in progress
        self.session_waiting = False
        self.sessions = 0
        self.stop_reported = False
        self.was_cancelled = False
        self.calm = False  # nothing is happening

    def pending(self) -> bool:
        return any(self.due)

    def buffered(self) -> set[tuple[int, str]]:
        out: set[tuple[int, str]] = set()
        for w in self.sim.fs.watchers:
            if self.sim.owner(w) is self:
                out |= {(c, p) for c, p in w.buffer if c in self.types}
        return out

    def delivered(self, ev: Any, how: str) -> None:
        sim = self.sim
        sim.ctx.log(f"w{self.idx}: {ev!r} ({how})")
        self.flag = False
        self.got += 1
        if self.was_cancelled:
            sim.ctx.label("delivered-after-cancel")
        if type(ev) is not Event or type(ev.type) is not EventType or not isinstance(ev.path, pathlib.Path):
            sim.fail("content", f"delivered {ev!r}")
            return
        while self.due and not self.due[0]:
            self.due.pop(0)
        batch = self.due[0] if self.due else set()
        hit = [x for x in batch if x[0] == ev.type.value and pathlib.Path(x[1]) == ev.path]
        if not hit:
            sim.fail("content", f"delivered {ev!r}, expected one of {sorted(batch)}")
            return
        batch.remove(hit[0])
        if self.ended:
            sim.ctx.label("delivered-after-end")

    def stop_seen(self, how: str, exc: Any = None) -> None:
        sim = self.sim
        sim.ctx.log(f"w{self.idx}: stopped ({how})")
        self.stops += 1
        sim.ctx.label("stop-seen")
        if not self.ended:
            sim.fail("end", f"stop reported ({how}), but the watch did not end")
        elif self.pending() or self.buffered():
            sim.fail("end", f"stop reported ({how}) before the last change")
        if exc is not None and exc.receiver is not self.fw:
            sim.fail("end", "the stop error names another receiver")

    async def read_one(self, style: int) -> bool:
        sim = self.sim
        self.waiting += 1
        counted = True
        try:
            if style in (0, 1):
                self.delivered(await (self.fw.receive() if style == 0 else anext(self.fw)), "read")
                return True
            if style == 6:
                async with asyncio.timeout(2):
                    self.delivered(await self.fw.receive(), "timeout")
                return True
            for _ in range(2 if style == 4 else 1):
                if not await self.fw.ready():
                    self.stop_seen("ready")
                    try:
                        self.fw.consume()
                    except ReceiverStoppedError as exc:
                        self.stop_seen("consume", exc)
                    else:
                        sim.fail("end", "a stopped watcher can be consumed")
                    return False
                if not self.pending():
                    sim.fail("content", "ready without a change to report")
                self.flag = True
            self.waiting -= 1
            counted = False
            if style == 3:
                await yields(3)
            if style == 5:
                return True
            self.delivered(self.fw.consume(), "consume")
            return True
        except asyncio.CancelledError:
            self.was_cancelled = True
            raise
        except TimeoutError:
            sim.ctx.label("timed-out")
            self.was_cancelled = True
            return True
        except ReceiverStoppedError as exc:
            self.stop_seen("receive", exc)
            return False
        except StopAsyncIteration:
            self.stop_seen("anext")
            return False
        except BaseException as exc:  # pylint: disable=broad-except
            sim.fail("unexpected", f"read style {style} raised {texc(exc)}")
            return False
        finally:
            if counted:
                self.waiting -= 1

    async def reader(self, style: int, count: int) -> None:
        for _ in range(count):
            if not await self.read_one(style):
                break

    async def select_loop(self, leave_after: int, gap: int, other: Any) -> None:
        sim = self.sim
        n = stops = 0
        self.session_waiting = True
        try:
            async for sel in select(self.fw, other):
                self.session_waiting = False
                n += 1
                if selected_from(sel, self.fw):
                    if sel.was_stopped:
                        stops += 1
                        self.stop_reported = True
                        self.stop_seen("select", sel.exception)
                    elif sel.exception is not None:
                        sim.fail("unexpected", f"select item with {texc(sel.exception)}")
                    else:
                        self.delivered(sel.message, "select")
                elif selected_from(sel, other):
                    sim.ctx.label("other-in-select")
                # leaving cancels a wait for changes, which has to happen at rest
                if n >= leave_after and (self.calm or not selected_from(sel, other)):
                    sim.ctx.label("select-left")
                    self.was_cancelled = True
                    break
                if gap:
                    await asyncio.sleep(gap)
                self.session_waiting = True
        except asyncio.CancelledError:
            sim.ctx.label("select-cancelled")
            self.was_cancelled = True
            raise
        finally:
            self.session_waiting = False
        if stops > 1:
            sim.fail("end", f"{stops} stops reported in one loop")

    def busy(self) -> bool:
        return any(not t.done() for t in self.tasks)


class WatchSim(Sim):
    """Interprets a case."""

    CODES = ("change", "recv", "settle", "change", "step", "ready", "consume", "select", "cancel", "other", "advance",
             "end", "timeout")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.fs = FS(self)
        self.models: list[Model] = []
        self.count = 0

    def owner(self, watcher: FakeNotify) -> Model:
        for p in watcher.paths:
            for m in self.models:
                if str(p).startswith(m.root):
                    return m
        return self.models[0]

    def at_rest(self) -> None:
        for m in self.models:
            active = [w for w in self.fs.watchers if self.owner(w) is m]
            if len(active) > 1:
                self.ctx.fail("leak", f"{len(active)} underlying watches of one watcher")
            if m.waiting or (m.session_waiting and not m.stop_reported):
                self.ctx.label("waiting")
                if m.pending() or m.buffered():
                    self.ctx.fail("late", "a read waits although there is a change to report")
                if m.ended:
                    self.ctx.fail("end", "a read waits although the watch has ended")
                if active:
                    want = {pathlib.PurePath(p) for p in m.paths}
                    have = set(active[0].paths)
                    if want - have:
                        self.ctx.fail("paths", f"watched: {sorted(map(str, have))}, expected {sorted(map(str, want))}")
                else:
                    self.ctx.fail("late", "a read waits but nothing is being watched")
            want_types = frozenset(t for t in TYPES if t.value in m.types)
            if m.fw.event_types != want_types:
                self.ctx.fail("content", f"event_types is {m.fw.event_types}")

    def rest(self) -> None:
        self.settle()
        self.at_rest()

    def change(self, m: Model, a: int, b: int, c: int) -> None:
        if not any(self.owner(w) is m for w in self.fs.watchers) or m.ended:
            return  # nothing is being watched now
        batch = set()
        for i in range(1 + a % 4):
            x = b + i * (1 + c)
            t = TYPES[(c + i) % 3].value
            base = pick(m.paths, b + i)
            name = pick(NAMES, x)
            if (a + b + c + i) % 9 == 8:
                base = f"{m.root}-outside"
            batch.add((t, f"{base}/{name}"))
        self.ctx.log(f"w{m.idx}: changes {sorted(batch)}")
        active = [w for w in self.fs.watchers if self.owner(w) is m]
        for _, p in batch:
            if any(pathlib.PurePath(r) in pathlib.PurePath(p).parents for r in m.paths):
                self.ctx.check(any(w.covers(p) for w in active), "paths", f"changes of {p} are not watched")
        self.fs.change(batch)

    def op(self, code: str, a: int, b: int, c: int) -> None:
        m = pick(self.models, c)
        if code == "change":
            self.change(m, a, b, c)
        elif code == "recv":
            if not m.busy():
                m.tasks.append(self.spawn(m.reader((0, 1, 2, 3, 4, 6, 0, 1)[b], 1 + a)))
        elif code == "ready":
            if not m.busy():
                m.tasks.append(self.spawn(m.reader(5, 1)))
        elif code == "consume":
            if m.flag and not m.busy():
                m.delivered(m.fw.consume(), "consume")
        elif code == "select":
            if not m.busy():
                self.ctx.label("select")
                m.sessions += 1
                m.stop_reported = False
                m.session = event_module.Event(name="other")
                m.tasks.append(self.spawn(m.select_loop(1 + a, (0, 0, 1, 3)[b % 4], m.session)))
        elif code == "cancel":
            self.rest()
            for t in m.tasks:
                if not t.done():
                    self.ctx.label("cancelled")
                    t.cancel()
            if b % 2:
                self.rest()
            else:
                self.settle()
        elif code == "other":
            if m.session is not None and b % 2:
                m.session.set()
            elif m.session is not None:
                self.rest()
                m.calm = True
                m.session.set()
                self.settle()
                m.calm = False
        elif code == "end":
            if b % 2 == 0 and any(self.owner(w) is m for w in self.fs.watchers) and not m.ended:
                self.ctx.log(f"w{m.idx}: the watch ends")
                self.ctx.label("ended")
                if m.busy():
                    self.ctx.label("ended-while-waiting")
                m.ended = True
                for w in self.fs.watchers:
                    if self.owner(w) is m:
                        w.ended = True
                        w.wake()
        elif code == "timeout":  # the notifier tells that nothing happened
            if not b % 3:
                self.rest()
            self.fs.timeout()
        elif code == "advance":
            self.advance(1 + a % 2)
            self.at_rest()
        elif code == "settle":
            self.rest()
        elif code == "step":
            self.step(1 + a % 3)
        self.raise_failure()

    def body(self) -> None:
        with self.fs.installed():
            self.inside()

    def inside(self) -> None:
        case = self.case
        for i, conf in enumerate(case["confs"]):
            self.models.append(Model(self, i, conf))
        bag = case["bag"]
        for code, a, b, c in case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        self.rest()
        # whatever happened, the watchers still work
        for m in self.models:
            for t in m.tasks:
                if not t.done():
                    t.cancel()
            self.rest()
            style = case["end"]
            for i in range(60):
                if not m.pending() and not m.buffered():
                    break
                m.tasks.append(self.spawn(m.read_one((style + i) % 5)))
                self.rest()
            if m.pending() or m.buffered():
                self.ctx.fail("late", "changes are not delivered any more")
            t = self.spawn(m.read_one(style % 2))
            m.tasks.append(t)
            self.rest()
            if m.ended:
                self.ctx.check(t.done() and m.stops > 0, "end", "the end is not reported")
                # for every read, and once in a select loop
                for i in range(3):
                    before = m.stops
                    t = self.spawn(m.read_one((style + i) % 5))
                    self.rest()
                    self.ctx.check(t.done() and m.stops > before, "end", "the end is not reported again")
                m.stop_reported = False
                other = event_module.Event(name="other")
                t = self.spawn(m.select_loop(100, 0, other))
                self.rest()
                self.ctx.check(m.stop_reported, "end", "the end is not reported in a select loop")
                other.stop()
                self.rest()
                self.ctx.check(t.done(), "end", "the select loop does not end")
            elif m.types:
                self.ctx.check(not t.done(), "content", "a read ended without a change")
                kind = min(m.types)
                self.fs.change({(kind, f"{m.paths[-1]}/last")})
                before = m.got
                self.rest()
                self.ctx.check(t.done() and m.got == before + 1, "late", "a change is not reported")
            self.raise_failure()
            if not t.done():
                t.cancel()
            self.settle()
        # dropping the watchers ends the watches
        for m in self.models:
            m.fw = None
            m.tasks.clear()
        t = None
        self.fs.own_tasks.clear()  # their tracebacks lead to frames of the harness
        self.settle()
        if self.fs.watchers:
            gc.collect()
            self.settle()
        if self.fs.watchers:
            self.ctx.fail("leak", f"{len(self.fs.watchers)} underlying watch(es) left after dropping the watchers")
        n = sum(m.got for m in self.models)
        if n > 2:
            self.ctx.label("delivered-3+")
